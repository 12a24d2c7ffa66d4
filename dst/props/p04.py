"""P04: a run's physics does not depend on how patches are spread over ranks, nor on message timing."""
from .. import mix, scen
from ..core import Prop, V, outcome_violations

def program(rank, c):
    return scen.full_program(rank, c, extra=lambda sim: mix.make(sim, c, c.get("feats", []), "/nonexistent", {}))

class P04(Prop):
    id = "P04"
    rule = "A case draws a complete simulation (2D/3D, periodic or absorbing boundaries, one or two species, random fields, lasers and momentum kicks, fused or staged kernels, 1-5 steps); it runs on one rank, on 2-5 ranks under one random schedule, and on the same ranks under another."
    assumptions = ["Partition independence is checked to a relative tolerance of 1e-9 (summation order differs); schedule independence for a fixed partition is bitwise.", "No random physics (collisions, QED): those draw from per-rank generators by design."]
    def warm(self):
        scen.warm_full()
        for w in (scen.W2, scen.W3): program(0, dict(w, bc="o" * w["dim"], np=[2] * w["dim"], species=[dict(kind="electron", n=5)], steps=2, cbs=False, feats=[dict(f="laser", g=False), dict(f="laser", g=True)]))
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng)
        scen.add_mask(rng, c)
        c["feats"] = mix.gen_feats(rng, c, n=rng.choice([0, 1, 1, 2]), kinds=["laser", "laser", "setmom"])
        c["sched2"] = scen.gen_sched(rng)
        return c
    def execute(self, c, ctx):
        one = dict(c, nranks=1, part="metis")
        a = ctx.run(program, 1, args=(one,), benign=True, name="reference", omp=1)
        v = outcome_violations(a, what="single rank")
        if v: return v
        b = ctx.run(program, c["nranks"], args=(c,), name="distributed")
        v = outcome_violations(b, what="distributed")
        if v: return v
        sa, _ = scen.merge([r["state"] for r in a.values()]); sb, dup = scen.merge([r["state"] for r in b.values()])
        if dup: return [V("patch-duplicated", f"patches {dup} are on two ranks")]
        e = scen.compare_states(c, sa, sb, 1e-9, f"{c['nranks']} ranks vs 1 rank after {c['steps']} steps")
        if e: return [e]
        if {(r["itime"], r["time"]) for r in b.values()} != {(a.values()[0]["itime"], a.values()[0]["time"])}: return [V("clock", "ranks disagree on step count or time")]
        d = ctx.run(program, c["nranks"], args=(c,), name="other schedule", sched=c["sched2"])
        v = outcome_violations(d, what="other schedule")
        if v: return v
        for r, (x, y) in enumerate(zip(b.values(), d.values())):
            if x["dig"] != y["dig"]:
                k = next((i for i, (p, q) in enumerate(zip(x["dig"], y["dig"])) if p != q), len(x["dig"]))
                return [V("schedule-dependent", f"rank {r} step {k}: the same partition under another message schedule gives different bits")]
        if b.orphans: return [V("orphan-message", f"{b.orphans} message(s) never received")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["cbs"]: yield dict(c, cbs=False)
        yield from scen.shrink_grid(c)
PROP = P04()
