"""P30 sources: the charge and current that act on the fields are exactly those of the particles."""
import numpy as np
from .. import scen, ref
from ..core import Prop, V, outcome_violations

TOL = 1e-9
class P30(Prop):
    id = "P30"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks (2D and 3D, any boundaries, several species, QED, collisions, kicks, lasers, load balancing, disabled species, either kernel path); charge and current of the whole grid at the end of each step are compared with those of all particles as they were after the push, deposited by a reference on the undivided grid."
    assumptions = ["Current is that of a straight path of one time step centred on the particle's position (Esirkepov, quadratic spline)."]
    def warm(self):
        ref.warm()
        for w in (scen.W2, scen.W3): ref.program(0, dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b")], coll=[[0, 0], [0, 1]], steps=2, feats=[], cbs=False), "/nonexistent", "dep")
    def gen(self, rng, tier, i):
        c = ref.gen(rng, tier, mix=[m for m in scen.MIX if m])
        ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        if ch and "nseed" not in c and not c.get("dis") and rng.random() < 0.15: c["coll"] = [[ch[0], ch[0]]] + ([ch] if len(ch) > 1 else [])
        return c
    def execute(self, c, ctx):
        o = ctx.run(ref.program, c["nranks"], args=(c, ctx.dir(), "dep"))
        v = outcome_violations(o, what="run")
        if v: return v
        vals = o.values(); dim = c["dim"]; L, d = scen.box(c); dt = vals[0]["dt"]
        by = {}
        for v in vals:
            for kind, it, k, p in v["P"]: by.setdefault((it, k), []).append(p)
        S = ref.assemble(c, vals); shape = [c["np"][a] * c["nc"][a] for a in range(dim)]
        if len(S) != c["steps"]: return [V("step", f"{len(S)} steps made")]
        for _, it, g in S:
            want = {a: np.zeros(shape) for a in ref.CUR + ("rho",)}; sc = dict.fromkeys(want, 0.0)
            for k, q in enumerate(vals[0]["q"]):
                if k in c.get("dis", []) or c["species"][k]["kind"] == "photon": continue
                if len(by.get((it, k), [])) != c["nranks"]: return [V("species", f"step {it}: species {k} was not advanced on every rank")]
                p = np.concatenate(by[it, k], 1); x, u, w = p[:dim], p[dim:dim + 3], p[dim + 4]
                vel = ref.C * u / np.sqrt(1 + (u ** 2).sum(0)); part = {a: np.zeros(shape) for a in want}
                ref.deposit(c, x - vel[:dim] * dt / 2, x + vel[:dim] * dt / 2, vel, q * w, dt, part)
                for a in want: want[a] += part[a]; sc[a] = max(sc[a], np.abs(part[a]).max())
            sc = {a: max(x, sc["rho"] * ref.C * 1e-3 if a != "rho" else 0.0) for a, x in sc.items()}
            for a in want:
                e = np.abs(g[a] - want[a]); bad = ~(e <= TOL * sc[a])
                if bad.any():
                    j = tuple(np.argwhere(bad)[0].tolist()); return [V("charge" if a == "rho" else "current", f"step {it}: {a} in cell {list(j)} is {g[a][j]:.9g}, the particles make {want[a][j]:.9g} ({int(bad.sum())} cells)")]
        return []
    def shrink(self, c):
        if c.get("coll"): yield dict(c, coll=[])
        yield from ref.shrink(c)
PROP = P30()
