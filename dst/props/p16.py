"""P16 QED events: each photon emission and pair creation takes effect exactly once and conserves momentum."""
import numpy as np
from .. import scen, qed
from ..core import Prop, V, outcome_violations

ATTRS = ["x", "y", "z", "ux", "uy", "uz", "w", "inv_gamma", "delta"]
def attrs(part, dim): return [a for a in ATTRS if hasattr(part, a) and (a != "z" or dim == 3)]

def snap(sim):
    dim = sim.dimension; out = []
    for isp in range(len(sim.patches.species)):
        g = {}
        for p in sim.patches:
            part = p.particles[isp]; al = ~np.asarray(part.is_dead)
            for a in attrs(part, dim): g.setdefault(a, []).append(np.asarray(getattr(part, a))[al].copy())
            g.setdefault("event", []).append(np.asarray(part.event)[al].copy() if hasattr(part, "event") else np.zeros(al.sum(), bool))
            g.setdefault("patch", []).append(np.full(al.sum(), p.index))
        out.append({a: np.concatenate(v) for a, v in g.items()})
    return out

def program(rank, cfg):
    from lambdapic import callback
    sim = qed.build(cfg, rank)
    pre, post = [], []
    @callback(stage="current_deposition")
    def before(s):
        if s.ispec == len(s.species) - 1: pre.append(snap(s))
    @callback(stage="qed_create_particles")
    def after(s): post.append(snap(s))
    log = []
    sim.run(nsteps=cfg["steps"], callbacks=[qed.haste(cfg), before, after] + scen.pusher_stage_cbs(cfg, log))
    return pre, post

def model(cfg, pre):
    """What the events flagged in the state before must turn it into."""
    dim = cfg["dim"]; P = "xyz"[:dim]; S = cfg["species"]
    g = [{a: v.copy() for a, v in p.items()} for p in pre]; new = [[] for _ in S]; gone = [np.zeros(p["w"].size, bool) for p in pre]
    rad, bw = qed.links(cfg)
    def add(t, src, m, f): new[t].append({**{a: src[a][m] for a in P}, **{a: f[m] * src[a][m] for a in ("ux", "uy", "uz")}, "w": src["w"][m]})
    for s, ph in rad:
        m = pre[s]["event"].astype(bool); d = pre[s]["delta"]; add(ph, pre[s], m, d)
        for a in ("ux", "uy", "uz"): g[s][a] = np.where(m, (1 - d) * g[s][a], g[s][a])
    for ph, e, p in bw:
        m = pre[ph]["event"].astype(bool); d = pre[ph]["delta"]; add(e, pre[ph], m, d); add(p, pre[ph], m, 1 - d); gone[ph] |= m
    out = []
    for i in range(len(S)):
        keys = list(P) + ["ux", "uy", "uz", "w"]
        o = {k: np.concatenate([g[i][k][~gone[i]]] + [n[k] for n in new[i]]) for k in keys}
        u2 = o["ux"] ** 2 + o["uy"] ** 2 + o["uz"] ** 2
        with np.errstate(divide="ignore"): o["inv_gamma"] = (u2 + (0 if S[i]["kind"] == "photon" else 1)) ** -0.5
        out.append(o)
    return out

def relocate(cfg, o):
    """Periodic wrap and absorption at open edges; also says which particles sit too close to an absorbing edge to call."""
    dim = cfg["dim"]; L, d = scen.box(cfg); keep = np.ones(o["w"].size, bool); doubt = np.zeros(o["w"].size, bool); cell = []
    for i, a in enumerate("xyz"[:dim]):
        N = cfg["np"][i] * cfg["nc"][i]; f = o[a] / d[i] + 0.5; c = np.floor(f)
        if cfg["bc"][i] == "p": cell.append(c % N)
        else:
            t = cfg.get("cpml", 2); keep &= (c >= t) & (c < N - t)
            doubt |= (np.abs(f - t) < 1e-6) | (np.abs(f - (N - t)) < 1e-6); cell.append(c)
    return keep, doubt

def order(o): return np.lexsort((o["uz"], o["uy"], o["ux"], o["w"]))

class P16(Prop):
    id = "P16"; quick_s = 20.0
    rule = "A case draws a species mix with photon emission and/or pair creation in any species order, energetic seeded populations in a strong random field, a partition over 1-5 ranks and a schedule; at every step the particle populations before the event phase are turned by a reference model into the expected ones and compared with those after migration."
    assumptions = ["Which particles emit and with what energy share is taken from the run (the sampling tables are not judged here).", "Momenta and weights are compared to 1e-13, positions modulo the period to 1e-8 cells."]
    def warm(self): qed.warm(); scen.warm_full()
    def gen(self, rng, tier, i): return qed.gen(rng)
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="run with QED")
        if v: return v
        vals = o.values(); dim = c["dim"]; L, d = scen.box(c); names = [f"{s['kind']}({i})" for i, s in enumerate(c["species"])]
        if len({len(x[0]) for x in vals} | {len(x[1]) for x in vals} | {c["steps"]}) != 1: return [V("calls", f"callbacks ran {[(len(x[0]), len(x[1])) for x in vals]} times in {c['steps']} steps")]
        ev = 0
        for t in range(c["steps"]):
            pre = qed.gather([x[0][t] for x in vals]); post = qed.gather([x[1][t] for x in vals])
            want = model(c, pre); nev = [int(p["event"].sum()) for p in pre]; ev += sum(nev)
            for i, (w, g) in enumerate(zip(want, post)):
                keep, doubt = relocate(c, w)
                if doubt.any(): continue
                w = {k: v[keep] for k, v in w.items()}; what = f"step {t} {names[i]} (events per species {nev})"
                if w["w"].size != g["w"].size:
                    return [V("count", f"{what}: {g['w'].size} particles, {w['w'].size} expected")]
                a, b = order(w), order(g)
                for k in ("w", "ux", "uy", "uz", "inv_gamma"):
                    bad = ~(np.abs(w[k][a] - g[k][b]) <= 1e-13 * (np.abs(w[k][a]) + (1e-3 if k[0] == "u" else 0))) if k != "inv_gamma" else ~(np.abs(w[k][a] - g[k][b]) <= 1e-9 * w[k][a])
                    if bad.any(): j = np.nonzero(bad)[0][0]; return [V(f"values:{'weight' if k == 'w' else 'momentum' if k[0] == 'u' else 'gamma'}", f"{what}: {k} of particle with weight {w['w'][a][j]:.0f} is {g[k][b][j]!r}, expected {w[k][a][j]!r} ({bad.sum()} particles)")]
                for q, k in enumerate("xyz"[:dim]):
                    dx = w[k][a] - g[k][b]
                    if c["bc"][q] == "p": dx = dx - L[q] * np.rint(dx / L[q])
                    if (np.abs(dx) > 1e-8 * d[q]).any(): j = np.nonzero(np.abs(dx) > 1e-8 * d[q])[0][0]; return [V("values:position", f"{what}: {k} of particle with weight {w['w'][a][j]:.0f} off by {dx[j] / d[q]:.3g} cells")]
            for i, p in enumerate(pre):
                m = p["event"].astype(bool)
                if m.any() and not ((p["delta"][m] >= 0) & (p["delta"][m] <= 1)).all(): return [V("delta-range", f"step {t} {names[i]}: an event gives away the share {p['delta'][m].max()} of the energy")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        return []
    def shrink(self, c):
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        yield from scen.shrink_grid(c)
PROP = P16()
