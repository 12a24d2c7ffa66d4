"""P06 fail-stop: when a rank fails inside a run, the whole job ends at once; it neither hangs nor goes on as if nothing had happened."""
import os
import numpy as np
from .. import scen, mix
from ..simlib import L
from ..core import Prop, V, outcome_violations

STAGES = ["init", "start", "maxwell_1", "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end", "final"]

def program(rank, cfg, root):
    from lambdapic import callback
    L.sim_io_hold(1)   # failures while the input script sets up are outside run()
    sim = scen.build(cfg); rec = {}; log = []
    cbs = mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log)
    b = cfg.get("boom")
    kw = {}
    if b and b["stage"] == "stop":
        n = [0]
        def stop():
            n[0] += 1
            if rank in b["ranks"] and n[0] > b["at"]: raise KeyError("boom")
            return False
        kw["stop_callback"] = stop
    elif b:
        @callback(stage=b["stage"])
        def boom(s):
            if rank in b["ranks"] and s.itime >= b["at"]:
                raise {"value": ValueError, "exit": SystemExit, "int": KeyboardInterrupt, "os": OSError}[b["exc"]]("boom")
        cbs.insert(b["pos"] % (len(cbs) + 1), boom)
    L.sim_io_hold(0)
    sim.run(nsteps=cfg["steps"], callbacks=cbs, **kw)
    L.sim_io_hold(1)
    return dict(itime=sim.itime)

def tree(root):
    """Content of all output files below a directory (checkpoints by name only)."""
    import h5py
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f); rel = os.path.relpath(p, root)
            if not f.endswith(".h5"): out[rel] = os.path.getsize(p); continue
            try:
                with h5py.File(p, "r") as h: out[rel] = {k: h[k][()] for k in h}
            except Exception as e: out[rel] = f"unreadable: {e}"
    return out
def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k], equal_nan=True) for k in a)
    return type(a) == type(b) and not isinstance(a, str)

class P06(Prop):
    id = "P06"; quick_s = 18.0
    stub = Prop.stub + ["file system calls (real files in a scratch directory; errors injected)", "termination of the other ranks by the MPI launcher after an abort"]
    rule = "A case draws a complete simulation with output callbacks on 1-4 ranks and one failure: an exception raised by a user callback of any stage on any subset of the ranks at any step, or ENOSPC/EIO from the n-th file operation of one rank, while all other ranks are anywhere in their step. If the failure happened the job must have been aborted (one rank: the exception must reach the caller), or its complete output must equal that of the fault-free run."
    assumptions = ["After MPI_Abort the launcher ends all ranks."]
    def warm(self):
        from .p08 import warm_restart
        scen.warm_full(); warm_restart()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 4), nmax=60)
        if rng.random() < 0.12: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["lb"] = rng.choice([None, None, 1e-6]); c["plan"] = rng.choice(["exc", "io"])
        if c["plan"] == "exc":
            c["feats"] = mix.gen_feats(rng, c, n=rng.randint(0, 2))
            c["boom"] = dict(stage=rng.choice(STAGES + ["stop"]), ranks=sorted(rng.sample(range(c["nranks"]), rng.choice([1, 1, rng.randint(1, c["nranks"])]))), at=rng.randrange(c["steps"]), exc=rng.choice(["value", "value", "exit", "int", "os"]), pos=rng.randrange(4))
        else:
            c["feats"] = mix.gen_feats(rng, c, n=rng.randint(1, 2), kinds=["fields", "density", "parts", "ckpt"])
            c["io"] = dict(rank=rng.randrange(c["nranks"]) if rng.random() < 0.6 else 0, at=rng.choice([1, 3, rng.randint(1, 15), rng.randint(1, 80)]), err=rng.choice([28, 28, 5, 122]))
        return c
    def execute(self, c, ctx):
        root = ctx.dir(); a, b = os.path.join(root, "a"), os.path.join(root, "b")
        os.mkdir(a); os.mkdir(b)
        faults = [dict(kind="ioerr", rank=c["io"]["rank"], at=c["io"]["at"], arg=c["io"]["err"], on="file")] if c.get("io") else None
        o = ctx.run(program, c["nranks"], args=(c, a), root=a if faults else None, faults=faults)
        if o.state == "crashed" and faults and o.fired[0]: return []   # the HDF5 library itself may die of a failed write; the launcher ends the job then
        if o.state in ("deadlock", "hang", "steplimit", "crashed"):
            return [dict(x, sig="after-failure:" + x["sig"]) for x in outcome_violations(o, what="job in which one rank failed")]
        failed = bool(o.fired and o.fired[0]) if faults else None
        bm = c.get("boom")
        if bm:
            active = True
            if bm["stage"] == "current_deposition" and not c["species"]: active = False
            if bm["stage"] == "init": active = bm["at"] == 0
            if bm["stage"] == "final": active = True
            failed = active
        if not failed:
            return outcome_violations(o, what="run") if o.state != "done" or any(r.error for r in o.ranks) else []
        if c["nranks"] == 1:
            if o.ranks[0].error: return []
        elif o.state == "aborted":
            return [] if o.abort_code else [V("exit-status", "the job was aborted with status 0")]
        elif any(r.error for r in o.ranks):
            return [V("not-aborted", f"rank {[r.rank for r in o.ranks if r.error]} failed but the job was not aborted: {o.errors()[0][1][:300]}")]
        if bm: return [V("swallowed", f"the exception raised by a callback of stage {bm['stage']} vanished: run() returned on every rank")]
        # the failed operation left no trace: then the output must be complete
        p = ctx.run(program, c["nranks"], args=({k: v for k, v in c.items()}, b), name="no faults", benign=True)
        v = outcome_violations(p, what="fault-free run")
        if v: return v
        ta, tb = tree(a), tree(b)
        bad = [f for f in tb if f not in ta or not same(tb[f], ta[f])]
        if bad: return [V("silent-loss", f"run() returned normally although writing failed, and {sorted(bad)[:3]} are missing or wrong")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c.get("io") and c["io"]["at"] > 1: yield dict(c, io=dict(c["io"], at=c["io"]["at"] // 2)); yield dict(c, io=dict(c["io"], at=c["io"]["at"] - 1))
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        for q in scen.shrink_grid(c):
            if c.get("boom"):
                q = dict(q, boom=dict(q["boom"], ranks=[r for r in q["boom"]["ranks"] if r < q["nranks"]], at=min(q["boom"]["at"], q["steps"] - 1)))
                if not q["boom"]["ranks"]: continue
            if c.get("io") and c["io"]["rank"] >= q["nranks"]: continue
            yield q
PROP = P06()
