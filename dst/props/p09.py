"""P09 checkpoints survive failures: whatever kills the job, every checkpoint under its final name is complete, and the newest ones are kept."""
import os, re
import numpy as np
from .. import scen, mix
from ..simlib import L
from ..core import Prop, V, outcome_violations

def drive(rank, sim, cfg, seg, out, log):
    """One job segment: run with checkpoints; notes on disk (outside the simulated file system) which ones finished."""
    from lambdapic import callback
    from lambdapic.callback.restart import RestartDump
    digs = {}
    iv = seg["iv"]; off = cfg["off"]
    pred = (lambda s: (s.itime - off) % iv == iv - 1)
    @callback(stage="end", interval=pred)
    def before(s): digs[s.itime] = scen.digest(scen.observe(s))
    cb = RestartDump(out, interval=pred, keep=cfg["keep"])
    @callback(stage="end", interval=pred)
    def after(s):
        with open(os.path.join(log, f"{rank}.done"), "a") as f: f.write(f"{s.itime}\n")
    L.sim_io_hold(0)
    sim.run(nsteps=off + seg["to"] - sim.itime, callbacks=[before, cb, after])
    L.sim_io_hold(1)
    return digs

def first(rank, cfg, out, log):
    L.sim_io_hold(1)
    sim = scen.build(cfg)
    sim.itime = cfg["off"]; sim.time = sim.itime * sim.dt
    digs = drive(rank, sim, cfg, dict(iv=cfg["iv"], to=cfg["steps"]), out, log)
    return dict(digs=digs, state=scen.observe(sim))

def again(rank, cfg, ckpt, out, log):
    from lambdapic.callback.restart import RestartDump
    L.sim_io_hold(1)
    sim = RestartDump.load(ckpt)
    digs = drive(rank, sim, cfg, dict(iv=cfg["iv"], to=cfg["steps"]), out, log)
    return dict(digs=digs, state=scen.observe(sim))

def probe(rank, cfg, dirs, resume):
    from lambdapic.callback.restart import RestartDump
    res = {}
    for d in dirs:
        sim = RestartDump.load(d)
        res[os.path.basename(d)] = (sim.itime, scen.digest(scen.observe(sim)))
    st = None
    if resume and dirs:
        sim = RestartDump.load(dirs[-1])
        n = cfg["off"] + cfg["steps"] - sim.itime
        if n > 0: sim.run(nsteps=n)
        st = scen.observe(sim)
    return dict(loads=res, state=st)

def complete(d):
    return sorted(int(x[5:]) for x in os.listdir(d) if re.fullmatch(r"ckpt_\d+", x))

class P09(Prop):
    id = "P09"; quick_s = 20.0; level = "exploration"
    stub = Prop.stub + ["file system calls (real files in a scratch directory; crash before or after any operation, errors injected)", "power loss is not modelled: what a killed process has written stays"]
    rule = "A case runs a job of 1-4 ranks that writes checkpoints with a retention limit and ends it at a random point: the job is killed at the n-th operation or file operation of one rank (other ranks get a few more operations in), or a file operation fails with ENOSPC/EIO. Optionally a second job resumes from a surviving checkpoint into the same directory and is ended too. Then a fresh job loads every checkpoint directory and compares each rank's state with what it was at that step in the fault-free run, and continues from the newest to the end."
    assumptions = ["Crash means that the processes of the job die; data already handed to the operating system survives.", "A checkpoint being rewritten for the same step may be absent while it is replaced."]
    def warm(self):
        scen.warm_full()
        from .p08 import warm_restart
        warm_restart()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(2, 6), nmax=20)
        if rng.random() < 0.2: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4)
        if c["dim"] == 3 and rng.random() < 0.5: c.update(scen.gen_grid(rng, dim=2), bc="pp", nranks=c["nranks"]); scen.fix_grid(c)
        c["nranks"] = min(c["nranks"], 4); c["cbs"] = False
        c["iv"] = rng.choice([1, 1, 1, 2]); c["keep"] = rng.choice([None, 1, 1, 2, 3]); c["off"] = rng.choice([0, 0, 97, 999997])
        c["cuts"] = [self.cut(rng, c) for _ in range(rng.choice([1, 1, 2]))]
        c["pick"] = rng.random(); c["sched"]["ioshort"] = rng.choice([0.0, 0.1])
        return c
    def cut(self, rng, c):
        k = rng.choice(["kill", "kill", "ioerr", "none"] if rng.random() < 0.9 else ["none"])
        r = rng.choice([0, 0, rng.randrange(c["nranks"])])
        if k == "ioerr": return dict(kind="ioerr", rank=r, at=rng.randint(1, 12 * c["steps"]), arg=rng.choice([28, 5, 122]), on="file")
        if k == "kill":
            if rng.random() < 0.75: return dict(kind="kill", rank=r, at=rng.randint(1, 12 * c["steps"]), arg=rng.choice([0, 0, 3, 20]), on="file")
            return dict(kind="kill", rank=r, at=rng.randint(1, 300 * c["steps"]), arg=rng.choice([0, 5, 40]))
        return None
    def execute(self, c, ctx):
        root = ctx.dir(); out = os.path.join(root, "out"); ref = os.path.join(root, "ref")
        logs = [os.path.join(root, x) for x in ("l0", "l1", "lr")]
        for d in [out, ref] + logs: os.mkdir(d)
        nofault = ctx.run(first, c["nranks"], args=(dict(c, keep=None), ref, logs[2]), name="fault-free", benign=True)
        v = outcome_violations(nofault, what="fault-free run")
        if v: return v
        digs = [x["digs"] for x in nofault.values()]; want, _ = scen.merge([x["state"] for x in nofault.values()])
        known = set()    # checkpoints that were complete when the previous job ended
        src = None
        for n, cut in enumerate(c["cuts"]):
            if n == 0: prog, args = first, (c, out, logs[0])
            else:
                have = complete(out)
                if not have: break
                src = have[int(c["pick"] * len(have))]
                prog, args = again, (c, os.path.join(out, f"ckpt_{src:06d}"), out, logs[1])
            o = ctx.run(prog, c["nranks"], args=args, name=f"job {n}", root=out, faults=[cut] if cut else None)
            if o.state in ("deadlock", "hang", "steplimit") or (o.state == "crashed"): return outcome_violations(o, what=f"job {n}")
            clean = o.state == "done" and not any(r.error for r in o.ranks)
            if not clean and not (cut and o.fired[0]): return outcome_violations(o, what=f"job {n}")
            done = []
            for r in range(c["nranks"]):
                p = os.path.join(logs[n], f"{r}.done")
                done.append([int(x) for x in open(p)] if os.path.exists(p) else [])
            fin = max(done, key=len)          # a checkpoint one rank has left behind is finished
            have = complete(out)
            inflight = None
            steps = [t for t in digs[0] if src is None or n == 0 or t > src]
            nxt = [t for t in steps if t not in fin]
            if nxt and not clean: inflight = min(nxt)
            must = known | set(fin)
            if inflight is not None:
                if inflight in have: must.add(inflight)
                else: must.discard(inflight)
            top = sorted(must) if c["keep"] is None else sorted(must)[-c["keep"]:]
            miss = [t for t in top if t not in have]
            if miss: return [V("lost", f"job {n}: checkpoint of step {miss} was finished and is among the newest {c['keep']}, but only {have} exist")]
            if clean and c["keep"] is not None and len(have) > c["keep"]: return [V("keep", f"job {n}: {len(have)} checkpoints {have} are left, {c['keep']} were to be kept")]
            if clean and c["keep"] is None and set(have) != must: return [V("extra", f"job {n}: checkpoints {have}, expected {sorted(must)}")]
            known = set(have)
            dirs = [os.path.join(out, f"ckpt_{t:06d}") for t in have]
            p = ctx.run(probe, c["nranks"], args=(c, dirs, n + 1 == len(c["cuts"])), name=f"load after job {n}", benign=True)
            if p.state != "done" or any(r.error for r in p.ranks):
                m = p.errors()[0][1] if p.errors() else p.note
                return [V("incomplete", f"after job {n} ended by {cut}, checkpoints {have}: loading fails: {m[:300]}")]
            for r, x in enumerate(p.values()):
                for name, (it, dg) in x["loads"].items():
                    t = int(name[5:])
                    if it != t + 1: return [V("step", f"{name} resumes at step {it}")]
                    if dg != digs[r].get(t) and n == 0: return [V("content", f"{name}: rank {r} holds another state than the run had at step {t}")]
            if n + 1 == len(c["cuts"]) and have:
                got, _ = scen.merge([x["state"] for x in p.values()])
                v = scen.compare_states(c, want, got, 1e-9, f"continuing from step {have[-1]}", sig="resume:")
                if v: return [v]
        return []
    def shrink(self, c):
        if len(c["cuts"]) > 1: yield dict(c, cuts=c["cuts"][:1]); yield dict(c, cuts=c["cuts"][1:]); yield dict(c, cuts=[None, c["cuts"][1]])
        for k, f in enumerate(c["cuts"]):
            if f and f["at"] > 1:
                for a in (f["at"] // 2, f["at"] - 1): yield dict(c, cuts=c["cuts"][:k] + [dict(f, at=a)] + c["cuts"][k + 1:])
            if f and f.get("arg") and f["kind"] == "kill": yield dict(c, cuts=c["cuts"][:k] + [dict(f, arg=0)] + c["cuts"][k + 1:])
        if c["off"]: yield dict(c, off=0)
        if c["keep"] is not None: yield dict(c, keep=None)
        if c["sched"].get("ioshort"): yield dict(c, sched=dict(c["sched"], ioshort=0.0))
        for q in scen.shrink_grid(c):
            if all(not f or f["rank"] < q["nranks"] for f in q["cuts"]): yield q
PROP = P09()
