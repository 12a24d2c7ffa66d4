"""A small executable reference of one time step on one undivided grid: fields (Yee scheme, absorbing layers), particles
(quadratic spline, Boris), charge and current (Esirkepov). Written from the equations; it knows no patches."""
from __future__ import annotations
import numpy as np
from . import scen, mix, qed

from scipy.constants import c as C, epsilon_0 as EPS0
EM = ("ex", "ey", "ez", "bx", "by", "bz"); CUR = ("jx", "jy", "jz")

# ------------------------------------------------------------------ fields
class Yee:
    def __init__(self, cfg, dt):
        self.dim = cfg["dim"]; self.d = scen.box(cfg)[1]; self.dt = dt; self.bc = cfg["bc"]
        self.n = [cfg["np"][a] * cfg["nc"][a] for a in range(self.dim)]
        self.t = cfg.get("cpml", 2); self.psi = {}; self.lay = {}
        for a in range(self.dim):
            for f in "eb":
                k, s, al = np.ones(self.n[a]), np.zeros(self.n[a]), np.zeros(self.n[a])
                if self.bc[a] != "p":
                    t = self.t; off = 0.0 if f == "e" else 0.5
                    depth = 1.0 - (np.arange(t) + off) / t          # 1 at the outer edge of the layer, 0 at its inner one
                    for idx in (np.arange(t), self.n[a] - 1 - np.arange(t) - (f == "b")):   # B lives between the nodes
                        k[idx] = 1 + 19.0 * depth ** 3; s[idx] = 0.7 * C * 0.8 * 4 / self.d[0] * depth ** 3; al[idx] = 0.15 * (1 - depth)
                self.lay[f, a] = (k, s, al)
    def diff(self, F, a, fwd):
        """Difference to the next (fwd) or from the last cell along an axis; nothing beyond an open end."""
        if a >= self.dim: return None
        if self.bc[a] == "p": return (np.roll(F, -1, a) - F) if fwd else (F - np.roll(F, 1, a))
        pad = [(0, 0)] * self.dim; pad[a] = (0, 1) if fwd else (1, 0)
        return np.diff(np.pad(F, pad), axis=a)
    def half(self, S, which):
        """E or B over half a time step."""
        h = self.dt / 2; e = which == "e"; src = "b" if e else "e"; fac = h * C ** 2 if e else -h; out = {}
        for i in range(3):
            F = S[which + "xyz"[i]].copy()
            if e: F -= h / EPS0 * S["j" + "xyz"[i]]
            for sgn, a, comp in ((1, (i + 1) % 3, (i + 2) % 3), (-1, (i + 2) % 3, (i + 1) % 3)):
                D = self.diff(S[src + "xyz"[comp]], a, fwd=not e)
                if D is None: continue
                k, s, al = self.lay[which, a]; sh = [-1 if b == a else 1 for b in range(self.dim)]
                F += sgn * fac * D / self.d[a] / k.reshape(sh)
                if self.bc[a] != "p":
                    b = np.exp(-(s / k + al) * h); m = s > 0; cc = np.zeros_like(s); cc[m] = (b[m] - 1) * s[m] / k[m] / (s[m] + k[m] * al[m]) / self.d[a]
                    p = self.psi.get((which, i, a), 0.0) * b.reshape(sh) + cc.reshape(sh) * D
                    p = p * m.reshape(sh); self.psi[which, i, a] = p
                    F += sgn * fac * p
            out[which + "xyz"[i]] = F
        return out

# ------------------------------------------------------------------ particles
def spline(x):
    """Quadratic spline weights of the three cells nearest to x (in cells): index of the middle one and weights."""
    i = np.floor(x + 0.5).astype(np.int64); q = x - i
    return i, np.stack([0.5 * (0.5 - q) ** 2, 0.75 - q * q, 0.5 * (0.5 + q) ** 2])

def interpolate(cfg, F, pos):
    """The six fields at the positions (dim, n); periodic wrap, nothing beyond an open end."""
    dim = cfg["dim"]; d = scen.box(cfg)[1]; n = [cfg["np"][a] * cfg["nc"][a] for a in range(dim)]; out = {}
    half = {c: [(c[0] == "e") == ("xyz"[a] == c[1]) for a in range(dim)] for c in EM}
    W = {(a, h): spline(pos[a] / d[a] - (0.5 if h else 0.0)) for a in range(dim) for h in (False, True)}
    for c in EM:
        v = np.zeros(pos.shape[1])
        for k in np.ndindex(*[3] * dim):
            w = 1.0; ix = []; ok = True
            for a in range(dim):
                i, s = W[a, half[c][a]]; w = w * s[k[a]]; j = i + k[a] - 1
                if cfg["bc"][a] == "p": j = j % n[a]
                else: ok = ok & (j >= 0) & (j < n[a]); j = np.clip(j, 0, n[a] - 1)
                ix.append(j)
            v += np.where(ok, w * F[c][tuple(ix)], 0.0)
        out[c] = v
    return out

def boris(u, f, q, m, dt):
    E = np.stack([f["ex"], f["ey"], f["ez"]]) * (q * dt / (2 * m * C)); um = u + E
    T = np.stack([f["bx"], f["by"], f["bz"]]) * (q * dt / (2 * m)) / np.sqrt(1 + (um ** 2).sum(0))
    up = um + np.cross(um + np.cross(um, T, axis=0), 2 * T / (1 + (T ** 2).sum(0)), axis=0)
    return up + E

# ------------------------------------------------------------------ charge and current
def deposit(cfg, pos0, pos1, vel, qw, dt, out):
    """Adds rho at pos1 and the current of the motion pos0 -> pos1 to the global arrays in `out`."""
    dim = cfg["dim"]; d = scen.box(cfg)[1]; n = [cfg["np"][a] * cfg["nc"][a] for a in range(dim)]; N = pos0.shape[1]
    if not N: return
    base = []; S0 = []; S1 = []
    for a in range(dim):
        i0, w0 = spline(pos0[a] / d[a]); i1, w1 = spline(pos1[a] / d[a]); base.append(i0)
        s0 = np.zeros((7, N)); s1 = np.zeros((7, N)); r = np.arange(N)
        for k in range(3): s0[3 + k - 1, r] += w0[k]; s1[3 + (i1 - i0) + k - 1, r] += w1[k]
        S0.append(s0); S1.append(s1)
    rho = qw / np.prod(d[:dim]); D = [S1[a] - S0[a] for a in range(dim)]
    def av(a, b):   # time average of the product of two (one) spline weights along the straight path
        if b is None: return S0[a] + 0.5 * D[a]
        x, y = S0[a][:, None], S0[b][None]; p, q = D[a][:, None], D[b][None]
        return x * y + 0.5 * (p * y + x * q) + p * q / 3
    def add(name, val):   # val: (7,)*dim + (N,)
        for k in np.ndindex(*[7] * dim):
            if not val[k].any(): continue
            ix = []; ok = np.ones(N, bool)
            for a in range(dim):
                j = base[a] + k[a] - 3
                if cfg["bc"][a] == "p": j = j % n[a]
                else: ok &= (j >= 0) & (j < n[a]); j = np.clip(j, 0, n[a] - 1)
                ix.append(j)
            np.add.at(out[name], tuple(ix), np.where(ok, val[k], 0.0))
    if dim == 2: add("rho", S1[0][:, None] * S1[1][None] * rho)
    else: add("rho", S1[0][:, None, None] * S1[1][None, :, None] * S1[2][None, None] * rho)
    for i in range(3):
        if i < dim:
            o = [a for a in range(dim) if a != i]; A = av(*o) if dim == 3 else av(o[0], None)
            flux = -np.cumsum(D[i], 0) * (d[i] / dt)      # what crosses from each cell to the next
            v = np.expand_dims(A, i) * flux.reshape([7 if a == i else 1 for a in range(dim)] + [N]) * rho
        else: v = av(0, 1) * rho * vel[2]
        add("j" + "xyz"[i], v)

# ------------------------------------------------------------------ the observed run
def program(rank, cfg, root, want):
    """Runs the case and keeps what the references need: fields around each half step, particles around each push."""
    from lambdapic import callback
    q = "nseed" in cfg; dim = cfg["dim"]; F = []; P = []; log = []
    def add(sim, sp):
        if cfg.get("coll"): sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    sim = qed.build(cfg, rank) if q else scen.build(cfg, add=add)
    def fields(s, names): return {p.index: {"c": (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0)), "f": {a: getattr(p.fields, a)[scen.patch_slices(p, dim)[1]].copy() for a in names}} for p in s.patches}
    def parts(s, k):
        out = []
        for p in s.patches:
            part = p.particles[k]; al = ~np.asarray(part.is_dead)
            out.append(np.stack([np.asarray(getattr(part, a))[al] for a in ["x", "y"] + ["z"] * (dim == 3) + ["ux", "uy", "uz", "inv_gamma", "w"]] + [np.asarray(part._id)[al].view(np.float64)]))
        return np.concatenate(out, 1) if out else np.zeros((dim + 6, 0))
    def snap(stage, names=None):
        @callback(stage=stage)
        def cb(s): F.append((stage, s.itime, fields(s, names)))
        return cb
    @callback(stage="maxwell_1")
    def before(s): P.append(("before", s.itime, None, [parts(s, k) for k in range(len(s.species))]))
    @callback(stage="current_deposition")
    def after(s): P.append(("after", s.itime, s.ispec, parts(s, s.ispec)))
    cbs = mix.make(sim, cfg, cfg["feats"], root, {}) + ([qed.haste(cfg)] if q else []) + scen.pusher_stage_cbs(cfg, log)
    if want == "fields": cbs = [snap("_laser", EM)] + cbs + [snap("start", EM + CUR), snap("maxwell_1", EM), snap("_laser", EM), snap("end", EM + CUR)]
    elif want == "laser": cbs = [snap("_laser", EM + CUR)] + cbs + [snap("_laser", EM)]
    elif want == "push": cbs += [snap("maxwell_1", EM), before, after]
    else: cbs += [after, snap("end", CUR + ("rho",))]
    for n in cfg.get("segments") or [cfg["steps"]]: sim.run(nsteps=n, callbacks=cbs)
    return dict(F=F, P=P, dt=sim.dt, q=[s.q for s in sim.species], m=[s.m for s in sim.species])

def assemble(cfg, vals):
    """Snapshots of all ranks joined: [(stage, step, {field: global array})]."""
    out = []
    for k, (stage, it, _) in enumerate(vals[0]["F"]):
        st, dup = scen.merge([v["F"][k][2] for v in vals])
        names = next(iter(st.values()))["f"]
        out.append((stage, it, {a: scen.global_array(st, cfg, a) for a in names}))
    return out

def gen(rng, tier, kick=True, **kw):
    """Case generator of the three reference checks."""
    if rng.random() < 0.1: c = qed.gen(rng, steps=(1, 3), nmax=25)
    else: c = scen.gen_full(rng, steps=(1, 4), nmax=rng.choice([80, 80, 80, 1500]), **kw)
    if c["e0"] == 1e12 and rng.random() < 0.3: c["e0"] = 1e13
    for s in c["species"]: s["wscale"] = rng.choice([1.0, 1e5, 1e9])
    c["lb"] = rng.choice([None, None, 1e-6, 0.2]); c["coll"] = []
    feats = ["laser", "laser"] + (["setmom"] if kick else [])
    c["feats"] = mix.gen_feats(rng, c, n=rng.choice([0, 0, 1, 2]), kinds=feats) if "nseed" not in c else []
    if rng.random() < 0.2 and len(c["species"]) > 1 and "nseed" not in c:
        c["dis"] = [rng.randrange(len(c["species"]))]; c["feats"] = [f for f in c["feats"] if f.get("s") not in c["dis"]]
    for a in range(c["dim"]):
        if c["bc"][a] != "p": c["np"][a] = max(c["np"][a], 2)
    if "o" in c["bc"] and rng.random() < 0.5: c["cpml"] = rng.randint(1, min(min(c["nc"]) - 1, 5))
    if rng.random() < 0.25 and c["steps"] > 1: k = rng.randint(1, c["steps"] - 1); c["segments"] = [k, c["steps"] - k]
    c["nranks"] = min(c["nranks"] if rng.random() < 0.9 else 1, int(np.prod(c["np"])))
    return c

def warm():
    scen.warm_full(); qed.warm()
    for w in (scen.W2P, scen.W3P):
        c = dict(w, steps=2)
        scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))

def shrink(c):
    for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
    if c.get("segments"): yield {k: v for k, v in c.items() if k != "segments"}
    if c.get("dis"): yield {k: v for k, v in c.items() if k != "dis"}
    if c["lb"] is not None: yield dict(c, lb=None)
    if c.get("cbs"): yield dict(c, cbs=False)
    if c["steps"] > 1: yield {k: v for k, v in dict(c, steps=c["steps"] - 1).items() if k != "segments"}
    for x in scen.shrink_grid(c):
        if len(x["species"]) == len(c["species"]) and scen.valid_grid(x) and (not x.get("segments") or sum(x["segments"]) == x["steps"]) and x.get("cpml", 2) < min(x["nc"]): yield x
