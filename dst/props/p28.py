"""P28 fields: E and B follow the Yee scheme on the whole grid, with absorbing layers at open ends."""
import numpy as np
from .. import scen, ref
from ..core import Prop, V, outcome_violations

TOL = 1e-10
class P28(Prop):
    id = "P28"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks (2D and 3D, periodic and open axes, layer thickness, particles, lasers, load balancing, segments); E, B and J of the whole grid are assembled around every half step and compared with the update of a reference written from the equations, which knows no patches; B's divergence is followed through the run."
    assumptions = ["Lasers prescribe B in the injection plane: the reference continues from what they prescribed.", "The absorbing layer is the convolutional one of the documentation with its default strength; beyond an open end the fields are zero."]
    warm = staticmethod(ref.warm)
    def gen(self, rng, tier, i):
        c = ref.gen(rng, tier)
        if c["e0"] == 0.0 and rng.random() < 0.7: c["e0"] = 1e10
        return c
    def execute(self, c, ctx):
        o = ctx.run(ref.program, c["nranks"], args=(c, ctx.dir(), "fields"))
        v = outcome_violations(o, what="run")
        if v: return v
        vals = o.values(); dim = c["dim"]; d = scen.box(c)[1]; Y = ref.Yee(c, vals[0]["dt"]); S = ref.assemble(c, vals)
        for stage, it, g in S:
            for a, x in g.items():
                if not np.isfinite(x).all(): return [V("not-finite", f"step {it}, stage {stage}: {a} is not finite")]
        if len(S) % 5: return [V("stages", f"{len(S)} snapshots, not five a step")]
        for k in range(0, len(S), 5):
            st = {s[0]: s for s in S[k:k + 5]}; it = S[k][1]
            s0, s1, l0, l1, s2 = (S[k + j][2] for j in range(5))
            if [x[0] for x in S[k:k + 5]] != ["start", "maxwell_1", "_laser", "_laser", "end"]: return [V("stages", f"step {it}: stages {[x[0] for x in S[k:k + 5]]}")]
            if k and any((s0[a] != S[k - 1][2][a]).any() for a in ref.EM): return [V("between", f"step {it}: fields differ from those at the end of the step before")]
            for what, src, which, got in (("first half step of E", s0, "e", s1), ("first half step of B", {**s0, **{x: s1[x] for x in ref.EM if x[0] == "e"}}, "b", s1), ("second half step of B", s1, "b", l0), ("second half step of E", {**l1, **{x: s2[x] for x in ref.CUR}}, "e", s2)):
                want = Y.half(src, which)
                sc = max(max(np.abs(want[a]).max(), np.abs(src[a]).max()) for a in want) or 1.0
                other = [x for x in src if x[0] in "eb" and x[0] != which]
                sc = max(sc, max(np.abs(src[x]).max() for x in other) * (ref.C if which == "e" else 1 / ref.C))
                for a in want:
                    e = np.abs(want[a] - got[a])
                    if (e > TOL * sc).any():
                        j = np.argwhere(e > TOL * sc); q = j[0].tolist(); lay = any(c["bc"][b] != "p" and not Y.t < q[b] < Y.n[b] - Y.t - 1 for b in range(dim))
                        return [V("update" + (":layer" if lay else ""), f"step {it}, {what}: {a} in cell {q} is {got[a][tuple(q)]:.9g}, the equations give {want[a][tuple(q)]:.9g} (off by {e[tuple(q)] / sc:.3g} of the scale, {len(j)} cells)")]
            # what a stage does not advance stays as it is
            for what, x, y, names in (("second half step of B", s1, l0, "e"), ("second half step of E", l1, s2, "b"), ("lasers", l0, l1, "e")):
                for a in ref.EM:
                    if a[0] in names and (x[a] != y[a]).any(): return [V("touched", f"step {it}, {what}: {a} changes")]
            for a in ("bx", "by", "bz"):   # a laser prescribes one plane
                e = l0[a] != l1[a]
                if any(f["f"] == "laser" for f in c["feats"]): e[Y.t + 1] = False
                if e.any(): return [V("touched", f"step {it}: {a} changes in the laser stage, in cell {np.argwhere(e)[0].tolist()}")]
        return []
    shrink = staticmethod(ref.shrink)
PROP = P28()
