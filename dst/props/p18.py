"""P18 threads: kernels that share the patches among threads neither race nor let the number or interleaving of threads show."""
import os
import numpy as np
from .. import scen, mix, qed
from ..core import Prop, V, outcome_violations

def program(rank, cfg, root):
    from lambdapic import callback
    q = "nseed" in cfg
    def add(sim, sp):
        if cfg.get("coll"): sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    sim = qed.build(cfg, rank) if q else scen.build(cfg, add=add); dig = []; rec = {}
    @callback(stage="end")
    def step(s): dig.append(scen.digest(scen.observe(s)))
    cbs = ([qed.haste(cfg)] if q else []) + mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, [])
    sim.run(nsteps=cfg["steps"], callbacks=cbs + [step])
    return dict(dig=dig, state=scen.observe(sim))

class P18(Prop):
    id = "P18"; quick_s = 20.0; tsan = True
    real = [x if "C extensions" not in x else "all 16 lambdapic C extensions, built from the current tree with -fsanitize=thread instrumentation that calls into the simulator" for x in Prop.real]
    rule = "A case draws a simulation on 1-3 ranks, in part with collisions, photon emission and pair creation, whose parallel regions run on 2-8 threads as coroutines in an order drawn by the seed, switched at loop chunks and, in half of the cases, at writes to memory; every access of the C kernels is checked for a conflicting access by another thread since the last barrier, and the state after every step is compared bit for bit with a run on one thread."
    assumptions = ["numba kernels run their chunks in a drawn order but are not switched inside a chunk, nor are their memory accesses recorded.", "Threads are switched at accesses of C code in a sequentially consistent memory.", "The quantum random streams belong to threads: with them only the race check and completion are judged."]
    def warm(self):
        if not os.environ.get("DST_EXT", "").endswith("ext_tsan"): raise RuntimeError("P18 needs the instrumented build")
        scen.warm_full(); qed.warm()
        for w in (scen.W2, scen.W3):
            c = dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b")], coll=[[0, 0, 1, 1]], steps=2, feats=[], cbs=False)
            program(0, c, "/nonexistent")
        for w in (scen.W2P, scen.W3P):
            c = dict(w, steps=2)
            scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))
    def gen(self, rng, tier, i):
        c = dict(qed.gen(rng, steps=(1, 3), nmax=30), e0=5e15) if rng.random() < 0.2 else scen.gen_full(rng, steps=(1, 4), nmax=80)
        scen.add_mask(rng, c)
        c["nranks"] = rng.choice([1, 1, min(2, c["nranks"]), min(3, c["nranks"])])
        c["lb"] = rng.choice([None, None, 1e-6]) if "nseed" not in c else None
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(0, 1), kinds=["laser", "setmom", "get"]) if "nseed" not in c else []
        ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        if "nseed" not in c and ch and rng.random() < 0.25: c["coll"] = rng.choice([[ch], [[j, j] for j in ch]]) if len(ch) > 1 else [[ch[0], ch[0]]]
        c["omp"] = rng.choice([2, 3, 4, 8]); c["sched"]["omp"] = rng.choice([0.3, 0.7, 1.0])
        c["mode"] = rng.choice([1, 3, 3]); c["sched"]["preempt"] = rng.choice([0.0005, 0.01, 0.1]) if c["mode"] & 2 else 0.0
        return c
    def execute(self, c, ctx):
        if not os.environ["DST_EXT"].endswith("ext_tsan"): raise RuntimeError("P18 needs the instrumented build")
        root = ctx.dir(); a, b = os.path.join(root, "a"), os.path.join(root, "b"); os.mkdir(a); os.mkdir(b)
        o = ctx.run(program, c["nranks"], args=(c, a), tsan=c["mode"], name="threads")
        v = outcome_violations(o, what=f"run on {c['omp']} threads")
        for r in o.ranks:
            if r.races: return [V("race:" + (r.race_note or "").split(" in ")[-1], f"rank {r.rank}: {r.races} conflicting accesses; first: {r.race_note}")]
        if v: return v
        if "nseed" in c: return []
        p = ctx.run(program, c["nranks"], args=(c, b), omp=1, benign=True, name="one thread")
        v = outcome_violations(p, what="run on one thread")
        if v: return v
        if c["lb"] is None:
            for r, (x, y) in enumerate(zip(o.values(), p.values())):
                for t, (d, e) in enumerate(zip(x["dig"], y["dig"])):
                    if d != e: return [V("not-bitwise", f"after step {t} the state of rank {r} on {c['omp']} threads is not bit for bit that on one thread")]
        s, _ = scen.merge([x["state"] for x in p.values()]); t, _ = scen.merge([x["state"] for x in o.values()])
        v = None if c.get("coll") and c["lb"] is not None else scen.compare_states(c, s, t, 1e-9, "threads against one thread")
        return [v] if v else []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["omp"] > 2: yield dict(c, omp=2)
        if c["lb"] is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        if c.get("coll"): yield {k: v for k, v in c.items() if k != "coll"}
        for q in scen.shrink_grid(c):
            if q["omp"] > 1 and len(q["species"]) == len(c["species"]): yield q
        if c["nranks"] > 1: yield dict(c, nranks=1)
PROP = P18()
