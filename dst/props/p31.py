"""P31 lasers: the wave that enters is the pulse that was asked for."""
import numpy as np
from .. import scen, mix, ref
from ..core import Prop, V, outcome_violations

TOL = 1e-9
def source(cfg, f, t):
    """Incoming E_y and E_z of one pulse description (see mix.gen_laser) at time t on the nodes of the injection plane; None after its end."""
    from scipy.constants import e, m_e
    from scipy.special import genlaguerre, factorial
    dim = cfg["dim"]; L, d = scen.box(cfg); n = [cfg["np"][a] * cfg["nc"][a] for a in range(dim)]
    a0, w0, l0, ctau = 1.0, 3e-7, 8e-7, f.get("ctau", 6e-7); c = ref.C
    stop = c * f["tstop"] if "tstop" in f else (6 if f["g"] else 2) * ctau
    if c * t >= stop: return None
    y = (np.arange(n[1]) - 0.5) * d[1] - f.get("y0", L[1] / 2); z = 0.0
    if dim == 3: z = ((np.arange(n[2]) - 0.5) * d[2] - f.get("z0", L[2] / 2))[None]; y = y[:, None]
    k = 2 * np.pi / l0; om = k * c; E0 = a0 * m_e * c * om / e; r = np.sqrt(y ** 2 + z ** 2); cy = 1.0
    if f["g"]:
        zR = np.pi * w0 ** 2 / l0; x = cfg.get("cpml", 2) * d[0]; q = x - f.get("focus_position", 0.0)
        w = w0 * np.sqrt(1 + (q / zR) ** 2); invR = q / (q ** 2 + zR ** 2); l, p = f.get("l", 0), f.get("p", 0)
        amp = E0 * w0 / w * np.exp(-(r / w) ** 2) * np.exp(-((c * t - f.get("x0", 3 * ctau)) / ctau) ** 2)
        ph = om * t + f.get("cep", 0.0) - k * x - k * r ** 2 / 2 * invR - (2 * p + abs(l) + 1) * np.arctan(q / zR) - l * np.arctan2(z + 0 * y, y + 0 * z)
        if l or p: s = np.sqrt(2) * r / w; amp = amp * np.sqrt(factorial(p) / factorial(p + abs(l))) * s ** abs(l) * genlaguerre(p, abs(l))(s ** 2)
    else:
        th = f.get("angle_y", 0.0); cy = np.cos(th); s = c * t - y * np.sin(th)
        amp = E0 * np.exp(-((y / cy) ** 2 + z ** 2) / w0 ** 2) * np.where((s > 0) & (s < 2 * ctau), np.sin(np.pi * s / (2 * ctau)) ** 2, 0.0)
        ph = om * t + f.get("cep", 0.0) - k * np.sin(th) * y
    el, po = f.get("ellipticity", 0.0), f.get("pol_angle", 0.0); nn = np.sqrt(1 + el ** 2)
    u, v = amp * np.sin(ph) / nn, amp * el * np.cos(ph) / nn        # along and across the polarisation
    full = np.zeros(n[1:dim])
    return (np.cos(po) * u - np.sin(po) * v) * cy + full, np.sin(po) * u + np.cos(po) * v + full
def pulses(f):
    return [f] + (pulses(f["plus"]) if f.get("plus") else [])

class P31(Prop):
    id = "P31"; quick_s = 20.0
    rule = "A case draws a laser of one to three pulses (shapes, modes, polarisation, place, angle, phase, durations that end within the run), a domain with open x on 1-5 ranks with or without fields and particles, layers, load balancing and several run() calls; the whole grid before and after each injection is compared with the injection condition for the sum of the documented profiles, and with nothing after their end."
    assumptions = ["Transverse coordinates are those of the lower edges of the cells, as in the code.", "The injection plane lies within the first patches; the first-order condition of the code is the reference's as well, the profiles are written from the documentation."]
    warm = staticmethod(ref.warm)
    def gen(self, rng, tier, i):
        c = ref.gen(rng, tier)
        while "nseed" in c: c = ref.gen(rng, tier)
        c["bc"] = "o" + c["bc"][1:]; c["np"][0] = max(2, c["np"][0]); c.pop("cpml", None)
        if rng.random() < 0.5: c["cpml"] = rng.randint(1, min(3, min(c["nc"]) - 1))
        c["nc"][0] = max(c["nc"][0], c.get("cpml", 2) + 3); c["steps"] = rng.randint(1, 5); c.pop("segments", None)
        if c["steps"] > 1 and rng.random() < 0.3: k = rng.randint(1, c["steps"] - 1); c["segments"] = [k, c["steps"] - k]
        c["e0"] = rng.choice([0.0, 0.0, 1e10, 1e12, 1e13])
        o = mix.gen_laser(rng, c)
        if o.get("plus") and rng.random() < 0.4: o["plus"]["plus"] = mix.gen_laser(rng, c, more=False)
        for p in pulses(o):
            if rng.random() < 0.15: p["y0"] = 0.0
            if rng.random() < 0.15 and c["dim"] == 3: p["z0"] = 0.0
            if rng.random() < 0.25: p["tstop"] = rng.choice([1.5e-16, 3e-16, 5e-16, 8e-16])
        c["feats"] = [dict(o, f="laser", iv=1)]
        c["nranks"] = min(c["nranks"], int(np.prod(c["np"])))
        return c
    def execute(self, c, ctx):
        o = ctx.run(ref.program, c["nranks"], args=(c, ctx.dir(), "laser"))
        v = outcome_violations(o, what="run")
        if v: return v
        vals = o.values(); dim = c["dim"]; d = scen.box(c)[1]; dt = vals[0]["dt"]; S = ref.assemble(c, vals); C = ref.C; lp = c.get("cpml", 2) + 2; lasers = [f for f in c["feats"] if f["f"] == "laser"]
        if len(S) != 2 * c["steps"]: return [V("step", f"{len(S)} snapshots in {c['steps']} steps")]
        for k in range(0, len(S), 2):
            (_, it, b), (_, it2, a) = S[k], S[k + 1]; src = [source(c, p, it * dt) for p in (pulses(lasers[0]) if lasers else [])]; src = [x for x in src if x is not None]
            t = c.get("cpml", 2); sel = np.ones(b["bx"].shape[1:], bool)
            for ax in range(1, dim):
                if c["bc"][ax] != "p": n = b["bx"].shape[ax]; q = np.arange(n); sel &= ((q >= t) & (q < n - t)).reshape([-1 if x == ax else 1 for x in range(1, dim)])
            for f in ref.EM:
                e = b[f] != a[f]
                if src and f[0] == "b": e[lp - 1] = False if f == "bx" else e[lp - 1] & ~sel
                if e.any(): return [V("elsewhere" if src else "ended", f"step {it}: {f} changes in cell {np.argwhere(e)[0].tolist()} in the laser stage" + ("" if src else ", although all pulses have ended"))]
            if not src: continue
            ey = sum(x[0] for x in src); ez = sum(x[1] for x in src); g = C * dt / d[0]
            diff = lambda f, ax: (f[lp] - np.roll(f[lp], 1, ax)) / d[ax + 1] if ax + 1 < dim else 0.0
            bz = (4 * ey + 2 * (b["ey"][0] + C / 2 * b["bz"][0]) - 2 * b["ey"][lp] - dt * C ** 2 * diff(b["bx"], 1) + dt / ref.EPS0 * b["jy"][lp] + (g - 1) * C * b["bz"][lp]) / ((g + 1) * C)
            by = (-4 * ez - 2 * (b["ez"][0] - C / 2 * b["by"][0]) + 2 * b["ez"][lp] - dt * C ** 2 * diff(b["bx"], 0) - dt / ref.EPS0 * b["jz"][lp] + (g - 1) * C * b["by"][lp]) / ((g + 1) * C)
            E0 = max(np.hypot(ey, ez).max(), max(np.abs(b[f]).max() * (1 if f[0] == "e" else C) for f in ref.EM), dt / ref.EPS0 * max(np.abs(b[f]).max() for f in ("jy", "jz")))
            for f, want in (("by", by), ("bz", bz), ("bx", b["bx"][0])):
                got = a[f][lp - 1]; e = np.abs(got - want) * C; bad = (e > TOL * max(E0, 1e-300)) & sel
                if bad.any():
                    j = np.argwhere(bad)[0].tolist(); return [V("source", f"step {it}: {f} in cell {[lp - 1] + j} of the injection plane is {got[tuple(j)]:.9g}, the pulse asked for makes {want[tuple(j)]:.9g} ({int(bad.sum())} cells)")]
        return []
    def shrink(self, c):
        for f in c["feats"]:
            if f.get("plus"): yield dict(c, feats=[{k: v for k, v in f.items() if k != "plus"}]); yield dict(c, feats=[dict(f["plus"], f="laser", iv=1)])
            for k in f:
                if k not in ("f", "g", "iv", "plus"): yield dict(c, feats=[{x: y for x, y in f.items() if x != k}])
        yield from (x for x in ref.shrink(c) if x["feats"] and x["bc"][0] == "o" and x["nc"][0] >= x.get("cpml", 2) + 3)
PROP = P31()
