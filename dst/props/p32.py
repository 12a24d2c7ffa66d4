"""P32 quantum events: they happen when the optical depth has run out, at the rate and with the energies of the local quantum parameter."""
import numpy as np
from .. import scen, qed
from ..core import Prop, V, outcome_violations

LO, HI, N = -3.0, 2.0, 256     # documented range of the quantum parameter, in steps of which the rates are interpolated
_tab = {}
def spectrum(chi, pair):
    """Locally-constant-field rate per unit of energy share (per proper time), on a fine grid of shares: (share, cumulated rate)."""
    from scipy.constants import alpha, m_e, c, hbar, pi
    from scipy.special import kv
    if "K" not in _tab:     # the integral of K_1/3 from x to infinity, by the cosh representation
        from scipy.interpolate import CubicSpline
        x = np.logspace(-48, 3.5, 2000); t = np.linspace(0, 125, 5001)
        with np.errstate(over="ignore", under="ignore"): y = [np.trapezoid(np.exp(-a * (np.cosh(t) - 1)) * np.cosh(t / 3) / np.cosh(t), t) for a in x]
        _tab["K"] = CubicSpline(np.log(x), np.log(y))       # of exp(x) times the integral
    s = np.arange(-110, 40, 0.05); d = 1 / (1 + np.exp(-s)); q = 1 / (1 + np.exp(s)); A = alpha * m_e * c ** 2 / hbar / (np.sqrt(3) * pi)
    xi = 2 / (3 * chi * d * q) if pair else 2 * d / (3 * chi * q)
    with np.errstate(under="ignore", invalid="ignore", over="ignore"):
        K = np.where(xi < 700, np.exp(_tab["K"](np.log(np.minimum(xi, 1e3))) - xi), 0.0)
        f = A * ((q / d + d / q) * kv(2 / 3, xi) + K if pair else (q + 1 / q) * kv(2 / 3, xi) - K) * d * q
    f[~np.isfinite(f)] = 0.0
    return d, np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)]) * 0.05
def table(pair):
    if pair not in _tab:
        L = np.linspace(LO, HI, N); sp = [spectrum(10 ** x, pair) for x in L]
        _tab[pair] = L, np.array([x[1][-1] for x in sp]), sp[0][0], np.array([x[1] for x in sp])
    return _tab[pair]
def rate(chi, pair):
    L, R, _, _ = table(pair)
    with np.errstate(divide="ignore"): return np.interp(np.log10(chi), L, R)
def rank_of(chi, share, pair):
    """Where in the distribution of shares an event lies: uniform in (0, 1) if they are drawn rightly. Shares below 1e-3 are not drawn."""
    L, _, d, C = table(pair); k = np.clip(((np.log10(chi) - LO) / (HI - LO) * (N - 1)).astype(int), 0, N - 2); t = (np.log10(chi) - L[k]) / (L[1] - L[0])
    out = []
    for i in range(chi.size):
        c = C[k[i]] * (1 - t[i]) + C[k[i] + 1] * t[i]; a = np.interp([1e-3, share[i], 1.0], d, c); out.append((a[1] - a[0]) / (c[-1] - a[0]))
    return np.array(out)
def ks(u):
    u = np.sort(u); n = u.size; k = np.arange(n)
    return max((u - k / n).max(), ((k + 1) / n - u).max())

ATT = ["ux", "uy", "uz", "inv_gamma", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "tau"]
def program(rank, cfg):
    from lambdapic import callback
    sim = qed.build(cfg, rank); out = []
    if cfg.get("uniform"):
        e = np.array(cfg["uniform"]) * cfg["e0"]
        for p in sim.patches:
            for k, a in enumerate(("ex", "ey", "ez", "bx", "by", "bz")): getattr(p.fields, a)[...] = e[k] if k < 3 else 0.0
            for part in p.particles:
                if not hasattr(part, "tau"): continue
                m = np.sin(part.w * 3.7) > 0       # some fly along the field exactly
                u = np.sqrt(part.ux ** 2 + part.uy ** 2 + part.uz ** 2)
                for k, a in enumerate(("ux", "uy", "uz")): getattr(part, a)[m] = (u * cfg["uniform"][k])[m]
    @callback(stage="start")
    def haste(s):
        for p in s.patches:
            for part in p.particles:
                if not hasattr(part, "tau"): continue
                h = np.sin(part.w * 12.9898 + s.itime * 78.233 + cfg["nseed"]) * 43758.5453; h = h - np.floor(h); al = ~part.is_dead; q = cfg["haste"]
                for lo, hi, v in ((0, q, 1e-9), (q, q + 0.2 * (1 - q), None), (q + 0.2 * (1 - q), q + 0.3 * (1 - q), 0.0), (q + 0.3 * (1 - q), q + 0.35 * (1 - q), np.nan)):
                    m = al & (h >= lo) & (h < hi); part.tau[m] = 10 ** (-6 * (h[m] - lo) / (hi - lo)) if v is None else v
    def grab(s, names): return [(p.index, (~np.asarray(p.particles[s.ispec].is_dead)).copy(), {a: np.asarray(getattr(p.particles[s.ispec], a)).copy() for a in names}) for p in s.patches] if hasattr(s.patches[0].particles[s.ispec], "tau") else None
    @callback(stage="_interpolator")
    def before(s): out.append(["b", s.itime, s.ispec, grab(s, ATT)])
    @callback(stage="_qed")
    def after(s): out.append(["a", s.itime, s.ispec, grab(s, ["chi", "tau", "delta", "event"])])
    sim.run(nsteps=cfg["steps"], callbacks=[haste, before, after])
    return out, sim.dt

def chi2(a):
    """Square of the quantum parameter and the scale of the terms that cancel in it."""
    from scipy.constants import e, hbar, m_e, c
    F = np.longdouble(e * hbar / (m_e ** 2 * c ** 3)); u = [a[k].astype(np.longdouble) for k in ("ux", "uy", "uz")]; E = [a[k].astype(np.longdouble) for k in ("ex_part", "ey_part", "ez_part")]; B = [a[k].astype(np.longdouble) * c for k in ("bx_part", "by_part", "bz_part")]; g = 1 / a["inv_gamma"].astype(np.longdouble)
    x = [g * E[i] + u[(i + 1) % 3] * B[(i + 2) % 3] - u[(i + 2) % 3] * B[(i + 1) % 3] for i in range(3)]; d = sum(p * q for p, q in zip(u, E))
    S = g * (np.sqrt(sum(q * q for q in E)) + np.sqrt(sum(q * q for q in B)))
    return (F ** 2 * (sum(q * q for q in x) - d * d)).astype(float), (F ** 2 * S * S).astype(float)

class P32(Prop):
    id = "P32"; quick_s = 20.0
    rule = "A case draws species with photon emission and pair creation in any order, populations and strong fields with quantum parameters from zero to beyond the tables (uniform fields with particles flying along them among them), optical depths that are fresh, almost used up or long, a partition over 1-5 ranks, load balancing and a schedule; before and after every event stage each particle is compared with the reference: quantum parameter, decrease of the optical depth, event or none; fresh depths and energy shares with their distributions."
    assumptions = ["Rates and spectra are those of the locally constant field approximation, computed independently; between the documented grid of 256 quantum parameters rates are interpolated as in the code, shares below 1e-3 are not drawn.", "Beyond the upper end of the tables only finite rates not below the last one, and valid shares, are asked for.", "Distributions are tested at a level (Kolmogorov-Smirnov D*sqrt(n) > 4) that sound draws miss by chance once in 1e13."]
    def warm(self): qed.warm(); scen.warm_full(); table(False); table(True)
    def gen(self, rng, tier, i):
        c = qed.gen(rng); c["cbs"] = False
        c["e0"] = rng.choice([1e12, 1e14, 1e15, 5e15, 5e15, 1e17, 1e18])
        for s in c["species"]:
            if s.get("u"): s["u"] = rng.choice([1.0, 300.0, 2000.0, 2000.0, 1e5])
        if rng.random() < 0.25:
            v = np.array([rng.gauss(0, 1) for _ in range(3)]); c["uniform"] = (v / np.linalg.norm(v)).tolist()
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="run with QED")
        if v: return v
        vals = o.values(); fresh = []; shares = {False: ([], []), True: ([], [])}; top = 10 ** HI
        for r, (out, dt) in enumerate(vals):
            for (k1, it, isp, b), (k2, it2, isp2, a) in zip(out[::2], out[1::2]):
                if (k1, k2, it, isp) != ("b", "a", it2, isp2): return [V("stages", f"stages out of turn in step {it}")]
                sp = c["species"][isp]; pair = sp["kind"] == "photon"; on = sp.get("bw") if pair else sp.get("rad") is not None
                if b is None or not on: continue
                for (ip, al, B), (ip2, al2, A) in zip(b, a):
                    what = f"step {it}: {sp['kind']}({isp}) in patch {ip} of rank {r}"
                    if ip != ip2 or not np.array_equal(al, al2): return [V("population", f"{what}: other particles after the event stage")]
                    B = {k: x[al] for k, x in B.items()}; A = {k: x[al] for k, x in A.items()}; sl = np.nonzero(al)[0]
                    if not sl.size: continue
                    def bad(m, sig, msg):
                        j = np.nonzero(m)[0][0]; return [V(sig, f"{what}, slot {sl[j]}: {msg(j)} ({int(m.sum())} of {sl.size})")]
                    x2, S2 = chi2(B); chi = A["chi"]
                    m = ~(np.abs(chi ** 2 - np.maximum(x2, 0)) <= 1e-11 * S2)
                    if m.any(): return bad(m, "chi", lambda j: f"quantum parameter {chi[j]:.9g}, the fields there make {np.sqrt(max(x2[j], 0)):.9g}")
                    low = chi < 10 ** LO; ev = A["event"].astype(bool); over = chi > top * (1 - 1e-12); un = ~(B["tau"] != 0) | np.isnan(B["tau"])
                    m = low & ev
                    if m.any(): return bad(m, "low", lambda j: f"an event at the quantum parameter {chi[j]:.3g}")
                    same = (A["tau"] == B["tau"]) | (np.isnan(A["tau"]) & np.isnan(B["tau"]))
                    m = low & ~same
                    if m.any(): return bad(m, "low:depth", lambda j: f"optical depth changes at the quantum parameter {chi[j]:.3g}")
                    with np.errstate(divide="ignore", invalid="ignore"): dec = np.where(low, 0.0, rate(np.maximum(chi, 1e-3), pair)) * B["inv_gamma"] * dt
                    tol = (1e-2 if pair else 1e-6) * dec * np.where((chi < 0.05) | ~np.bool_(pair), 1.0, 1e-3) + 1e-14 * np.where(un, 1.0, np.abs(B["tau"])) + 1e-300
                    new = ~low & ~(A["tau"] > 0) | np.isinf(A["tau"])
                    if new.any(): return bad(new, "depth", lambda j: f"optical depth {A['tau'][j]} after the stage")
                    k = ~low & ~un & ~over
                    m = k & ~ev & ~(np.abs(B["tau"] - A["tau"] - dec) <= tol)
                    if m.any(): return bad(m, "rate", lambda j: f"optical depth falls from {B['tau'][j]:.9g} to {A['tau'][j]:.9g}, the rate at {chi[j]:.6g} makes {dec[j]:.6g}")
                    m = k & ev & (B["tau"] > dec + tol)
                    if m.any(): return bad(m, "early", lambda j: f"an event although of the depth {B['tau'][j]:.6g} only {dec[j]:.6g} are used up")
                    m = over & ~un & ~ev & ~low & (B["tau"] - A["tau"] < dec - tol)
                    if m.any(): return bad(m, "rate:beyond", lambda j: f"beyond the tables, at {chi[j]:.6g}, the optical depth falls from {B['tau'][j]:.9g} to {A['tau'][j]:.9g}, by less than at their end ({dec[j]:.6g})")
                    m = over & ~un & ev & (B["tau"] > dec * (chi / top) ** 1.5 * 2 + tol)
                    if m.any(): return bad(m, "early:beyond", lambda j: f"beyond the tables, at {chi[j]:.6g}, an event although of the depth {B['tau'][j]:.6g} at most {dec[j] * (chi[j] / top):.6g} are used up")
                    m = ev & ~((A["delta"] >= 0.999e-3) & (A["delta"] <= 1))
                    if m.any(): return bad(m, "share", lambda j: f"an event gives away the share {A['delta'][j]} of the energy")
                    m = ~ev & (A["delta"] != 0)
                    if m.any(): return bad(m, "share:none", lambda j: f"share {A['delta'][j]} without an event")
                    fresh.append(A["tau"][ev]); fresh.append(A["tau"][un & ~ev & ~low])   # what is left of an exponential depth is again one
                    if ev.any(): k = ev & ~over; shares[pair][0].append(chi[k]); shares[pair][1].append(A["delta"][k])
        f = np.concatenate(fresh) if fresh else np.zeros(0)
        if f.size - np.unique(f).size > 1 + f.size * 1e-3: return [V("fresh:same", f"{f.size - np.unique(f).size} of {f.size} fresh optical depths are copies of others")]
        if f.size > 20 and ks(1 - np.exp(-f)) * np.sqrt(f.size) > 4: return [V("fresh", f"{f.size} fresh optical depths (mean {f.mean():.3g}) are not distributed exponentially: D = {ks(1 - np.exp(-f)):.3g}")]
        for pair, (x, s) in shares.items():
            if not x: continue
            x, s = np.concatenate(x), np.concatenate(s); n = x.size
            if n > 20:
                D = ks(rank_of(x, s, pair))
                if (D - 0.015) * np.sqrt(n) > 4: return [V(f"spectrum:{'pair' if pair else 'photon'}", f"energy shares of {n} events (mean {s.mean():.3g}) do not follow the spectrum: D = {D:.3g}")]
        return []
    def shrink(self, c):
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c.get("uniform"): yield {k: v for k, v in c.items() if k != "uniform"}
        if c["haste"]: yield dict(c, haste=0.0)
        yield from scen.shrink_grid(c)
PROP = P32()
