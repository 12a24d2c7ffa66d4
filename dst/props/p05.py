"""P05 progress: whatever combination of features is active, every rank reaches the end of the run, and no message is left over."""
from .. import scen, mix
from ..core import Prop, V, outcome_violations

class P05(Prop):
    id = "P05"; quick_s = 20.0
    rule = "A case draws a complete simulation on 2-5 ranks with up to four output/diagnostic/drive callbacks at random stages and intervals, load balancing with a random trigger, segments of several run() calls, and optionally a stop request raised on a subset of the ranks; it runs under one random schedule with stalled and slow ranks."
    assumptions = ["A run is expected to finish within 3 million scheduler steps (typical runs need a few thousand).", "The MPI library delivers every message eventually (MPI is reliable by specification); it may buffer or synchronise sends, delay and reorder deliveries between pairs, and let collectives exit late."]
    def warm(self):
        from .p08 import warm_restart
        scen.warm_full(); warm_restart()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 4), nmax=60)
        scen.add_mask(rng, c)
        if c["nranks"] < 2: c["nranks"] = 2
        c["lb"] = rng.choice([None, None, 1e-6, 0.2])
        c["feats"] = mix.gen_feats(rng, c)
        if rng.random() < 0.3: c["segments"] = [rng.randint(1, 2) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.25: c["stop"] = dict(ranks=sorted(rng.sample(range(c["nranks"]), rng.randint(1, c["nranks"]))), at=rng.randint(1, 3))
        return c
    def execute(self, c, ctx):
        o = ctx.run(mix.program, c["nranks"], args=(c, ctx.dir()), root=ctx.dir() if c.get("fileyield") else None)
        v = outcome_violations(o, what="run")
        if v: return v
        ts = {(r["itime"], r["time"], repr(r["ret"])) for r in o.values()}
        if len(ts) > 1: return [V("ranks-disagree", f"ranks finish at different steps: {sorted(ts)}")]
        want = sum(c.get("segments") or [c["steps"]]); got = o.values()[0]["itime"]
        if not c.get("stop") and got != want: return [V("step-count", f"{got} steps done, {want} requested")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) were sent but never received")]
        for r in o.ranks:
            if r.live: return [V("leaked-request", f"rank {r.rank} ends with {r.live} communication request(s) never completed")]
        notes = [sorted(map(repr, r["rec"].get("note", []))) for r in o.values()]
        if any(n != notes[0] for n in notes): return [V("callback-skew", "ranks called the callbacks at different steps")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c.get("stop"): yield {k: v for k, v in c.items() if k != "stop"}
        if c.get("segments"): yield {k: v for k, v in c.items() if k != "segments"}
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        yield from scen.shrink_grid(c)
PROP = P05()
