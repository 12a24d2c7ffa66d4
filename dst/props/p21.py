"""P21 charge: the deposited charge and current obey the continuity equation in every cell and step, and Gauss's law is kept."""
import numpy as np
from .. import scen, mix, qed
from ..core import Prop, V, outcome_violations

EPS0 = 8.8541878128e-12
def program(rank, cfg, root):
    from lambdapic import callback
    q = "nseed" in cfg; log = []; J = []; E = []; dim = cfg["dim"]
    def add(sim, sp):
        if cfg.get("coll"): sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    sim = qed.build(cfg, rank) if q else scen.build(cfg, add=add)
    take = lambda s, names: {p.index: {"c": (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0)), "f": {a: np.ascontiguousarray(getattr(p.fields, a)[scen.patch_slices(p, dim)[1]]) for a in names}} for p in s.patches}
    @callback(stage="end")
    def end(s):
        Q = [sum(float(part.w[~np.asarray(part.is_dead)].sum()) for part in (p.particles[i] for p in s.patches)) for i in range(len(s.species))]
        J.append((take(s, ("jx", "jy", "jz", "rho")), Q))
    @callback(stage="maxwell_1")
    def m1(s): E.append(take(s, ("ex", "ey", "ez")))
    cbs = ([qed.haste(cfg)] if q else []) + mix.make(sim, cfg, cfg["feats"], root, {}) + scen.pusher_stage_cbs(cfg, log) + [end, m1]
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(J=J, E=E, dt=sim.dt, q=[s.q for s in sim.species])

class P21(Prop):
    id = "P21"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks (2D and 3D, periodic and open axes, several species, collisions or QED, drive callbacks, either kernel path, load balancing); the global charge, current and electric field of every step are assembled from all ranks and judged cell by cell."
    assumptions = ["Currents are deposited over the time step centred on the position, so an impulsive change of momentum between steps (collisions, quantum events, callbacks that set momenta) leaves the trajectory that the current describes: such runs are judged by total charge only.", "Cells within the absorbing layers and the reach of a particle's shape beside them are left out: there particles are removed and fields damped."]
    def warm(self):
        scen.warm_full(); qed.warm()
        for w in (scen.W2P, scen.W3P):
            c = dict(w, steps=2)
            scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))
        for w in (scen.W2, scen.W3):
            c = dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b")], coll=[[0, 0, 1, 1]], steps=2, feats=[], cbs=False)
            program(0, c, "/nonexistent")
    def gen(self, rng, tier, i):
        if rng.random() < 0.15:   # quantum events kick particles: only the total charge is judged
            c = qed.gen(rng, steps=(2, 5), nmax=25)
        else: c = scen.gen_full(rng, steps=(2, 6), nmax=150, mix=[m for m in scen.MIX if m])
        c["coll"] = []; ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        if ch and "nseed" not in c and rng.random() < 0.15: c["coll"] = [[ch[0], ch[0]]] + ([ch] if len(ch) > 1 else [])
        for a in range(c["dim"]):
            if c["bc"][a] != "p":
                c["np"][a] = max(c["np"][a], 2)
                while c["np"][a] * c["nc"][a] < 13: c["nc"][a] += 1
        c["nranks"] = min(c["nranks"], int(np.prod(c["np"])))
        for s in c["species"]: s["wscale"] = rng.choice([1.0, 1e5, 1e9])
        c["lb"] = rng.choice([None, 1e-6, 0.2]); c["feats"] = mix.gen_feats(rng, c, n=rng.choice([0, 0, 1, 2]), kinds=(["setmom"] if rng.random() < 0.3 else []) + ["laser", "extract", "get", "density"] if "nseed" not in c else ["get", "note"])
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c, ctx.dir()))
        v = outcome_violations(o, what="run")
        if v: return v
        vals = o.values(); dim = c["dim"]; L, d = scen.box(c); dt = vals[0]["dt"]; vol = float(np.prod(d[:dim]))
        G = []; H = []
        for n in range(len(vals[0]["J"])):
            st, dup = scen.merge([x["J"][n][0] for x in vals])
            if dup: return [V("patches", f"patches {dup} on two ranks")]
            H.append({f: scen.global_array(st, c, f) for f in ("jx", "jy", "jz", "rho")})
            if any(np.isnan(a).any() for a in H[-1].values()): return [V("not-finite", f"step {n}: charge or current is not finite")]
        for n in range(len(vals[0]["E"])):
            st, _ = scen.merge([x["E"][n] for x in vals]); G.append({f: scen.global_array(st, c, f) for f in ("ex", "ey", "ez")})
        ok = np.ones([c["np"][a] * c["nc"][a] for a in range(dim)], bool)
        for a in range(dim):
            if c["bc"][a] != "p":
                m = c.get("cpml", 2) + 3; k = np.arange(ok.shape[a]); k = (k >= m) & (k < ok.shape[a] - m); ok &= k.reshape([-1 if b == a else 1 for b in range(dim)])
        kicked = "nseed" in c or c["coll"] or any(f["f"] == "setmom" for f in c["feats"])
        div = lambda h, p: sum((h[p + "xyz"[a]] - np.roll(h[p + "xyz"[a]], 1, a)) / d[a] for a in range(dim))
        for n, h in enumerate(H):
            if all(b == "p" for b in c["bc"]):
                Q = sum(q * sum(x["J"][n][1][i] for x in vals) for i, q in enumerate(vals[0]["q"])); S = sum(abs(q) * sum(x["J"][n][1][i] for x in vals) for i, q in enumerate(vals[0]["q"]))
                # particles made in this step are deposited from the next one on: they carry no net charge
                if abs(h["rho"].sum() * vol - Q) > 1e-9 * S: return [V("total-charge", f"step {n}: the deposited charge is {h['rho'].sum() * vol:.9g} C, the particles carry {Q:.9g} C")]
            if n and not kicked:
                dj = div(h, "j"); r = (h["rho"] - H[n - 1]["rho"]) / dt + dj; sc = max(np.abs(h["rho"]).max(), np.abs(H[n - 1]["rho"]).max()) / dt + sum(np.abs(h["j" + "xyz"[a]]).max() / d[a] for a in range(dim))
                e = (np.abs(r) > 1e-9 * sc) & ok
                if e.any(): j = np.argwhere(e)[0].tolist(); return [V("continuity", f"step {n}: in cell {j} charge appears or vanishes: d(rho)/dt + div J is {r[tuple(j)] / sc:.3g} of its scale ({int(e.sum())} cells)")]
        for n in range(1, 0 if kicked else len(G) - 1):   # E in the middle of step n+1 has seen the currents up to step n
            g0 = div(G[1], "e") - H[0]["rho"] / EPS0; g = div(G[n + 1], "e") - H[n]["rho"] / EPS0
            sc = max(sum(np.abs(x["e" + "xyz"[a]]).max() / d[a] for a in range(dim)) for x in (G[1], G[n + 1])) + max(np.abs(x["rho"]).max() for x in H) / EPS0
            e = (np.abs(g - g0) > 1e-8 * sc) & ok
            if e.any(): j = np.argwhere(e)[0].tolist(); return [V("gauss", f"step {n}: in cell {j} div E - rho/eps0 has changed by {abs(g - g0)[tuple(j)] / sc:.3g} of its scale since step 0 ({int(e.sum())} cells)")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c.get("coll"): yield dict(c, coll=[])
        if c["lb"] is not None: yield dict(c, lb=None)
        if c.get("cbs"): yield dict(c, cbs=False)
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]) and all(b == "p" or x["np"][a] * x["nc"][a] >= 13 for a, b in enumerate(x["bc"])))
PROP = P21()
