"""P10 dump on signal: a termination signal to any ranks at any moment makes all ranks dump the same step and stop, ready to continue."""
import os, re, signal
from .. import scen, mix
from ..simlib import L
from ..core import Prop, V, outcome_violations
from .p09 import complete

def program(rank, cfg, root, ckpt=None):
    from lambdapic import callback
    from lambdapic.callback.restart import RestartDump
    L.sim_io_hold(1)
    if ckpt: sim = RestartDump.load(ckpt)
    else: sim = scen.build(cfg)
    rec = {}; log = []; sig = []; where = ["pre"]
    sigs = lambda: True if cfg["sigs"] == "both" else [getattr(signal, cfg["sigs"])]
    extra = [(RestartDump(os.path.join(root, f"x{k}"), interval=x["iv"], keep=1, dump_signals=sigs() if x["sigs"] else False), x["at"]) for k, x in enumerate(cfg.get("extra", []))]   # R comes last: the signals are its
    R = RestartDump(os.path.join(root, "ck"), interval=cfg["iv"], keep=cfg["keep"], dump_signals=sigs())
    for s in (signal.SIGTERM, signal.SIGINT):
        h = signal.getsignal(s)
        if callable(h) and h is not signal.default_int_handler:
            def note(sg, fr, h=h): sig.append((sim.itime, where[0])); return h(sg, fr)
            signal.signal(s, note)
    @callback(stage="start")
    def a(s): where[0] = "in"
    @callback(stage="end")
    def z(s): where[0] = "end"     # from here on the decision of this step may already be under way
    cbs = mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log) + [a] + [x for x, at in extra if at == "before"] + [R] + [x for x, at in extra if at == "after"] + [z]
    L.sim_io_hold(0)
    sim.run(nsteps=cfg["steps"] - sim.itime, callbacks=cbs)
    L.sim_io_hold(1)
    return dict(itime=sim.itime, sig=sig, state=scen.observe(sim))

class P10(Prop):
    id = "P10"; quick_s = 18.0
    stub = Prop.stub + ["file system calls (real files in a scratch directory)", "signal delivery (raised inside the rank at a chosen operation)"]
    rule = "A case runs a job of 1-4 ranks that dumps on SIGINT/SIGTERM (and at an interval) and delivers one to four signals to any ranks, each at a random operation of that rank: inside a collective, an exchange, a checkpoint or another callback. All ranks must stop after the same step, not later than the first step whose end a signalled rank had not reached, with a complete checkpoint of it; a fresh job continues from it and must end like the job that was never interrupted."
    assumptions = ["A signal that arrives after the last step's decision may be ignored: the run completes."]
    def warm(self):
        scen.warm_full()
        from .p08 import warm_restart
        warm_restart()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(2, 5), nmax=40)
        scen.add_mask(rng, c)
        if rng.random() < 0.1: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["lb"] = rng.choice([None, None, 1e-6])
        c["sigs"] = rng.choice(["both", "both", "SIGTERM"])
        c["feats"] = mix.gen_feats(rng, c, n=rng.choice([0, 0, 1]), kinds=["setmom", "laser", "density", "get", "extract"])
        c["iv"] = rng.choice([1, 2, 1000]); c["keep"] = rng.choice([None, None, 1, 2])
        nums = [15, 2] if c["sigs"] == "both" else [15]
        rs = rng.sample(range(c["nranks"]), rng.randint(1, c["nranks"])) if rng.random() < 0.7 else list(range(c["nranks"]))
        if rng.random() < 0.3: c["extra"] = [dict(iv=rng.choice([1, 2, 1000]), sigs=rng.random() < 0.5, at=rng.choice(["before", "after", "unused"])) for _ in range(rng.choice([1, 1, 2]))]
        step = 90
        c["faults"] = [dict(kind="signal", rank=r, at=rng.randint(1, step * c["steps"]) if rng.random() < 0.8 else rng.randint(1, 20), arg=rng.choice(nums), **({"on": "file"} if rng.random() < 0.1 else {})) for r in rs]
        for f in c["faults"]:
            if f.get("on"): f["at"] = rng.randint(1, 25)
        if rng.random() < 0.3: c["faults"].append(dict(c["faults"][0], at=c["faults"][0]["at"] + rng.choice([1, 10, 60])))
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        o = ctx.run(program, c["nranks"], args=(c, os.path.join(root, "a")), root=root, faults=c["faults"])
        v = outcome_violations(o, what=f"job that receives signals {[(f['rank'], f['at']) for f in c['faults']]}")
        if v: return v
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        its = [x["itime"] for x in o.values()]
        if len(set(its)) > 1: return [V("different-step", f"ranks stop at steps {its}")]
        got = its[0]; done = got == c["steps"]
        seen = [(r, t, w) for r, x in enumerate(o.values()) for t, w in x["sig"]]
        bound = min([t if w == "in" else 0 if w == "pre" else t + 1 for _, t, w in seen], default=None)
        bound = None if bound is None or bound >= c["steps"] else bound
        if done and bound is not None: return [V("ignored", f"a signal arrived at step {bound} (rank, step, phase: {seen[:4]}), but the run went on to the end")]
        if not done:
            if not seen: return [V("spurious", f"the run stopped at step {got} of {c['steps']} without a signal")]
            if bound is not None and got > bound: return [V("late", f"signals {seen[:4]} should have stopped the run at step {bound}, it stopped at {got}")]
            if got < min(t for _, t, _ in seen): return [V("early", f"stopped at {got} before any signal")]
            have = complete(os.path.join(root, "a", "ck"))
            if got not in have: return [V("no-dump", f"the run stopped at step {got} on a signal, the checkpoints are {have}")]
        ref = ctx.run(program, c["nranks"], args=(c, os.path.join(root, "r")), name="without signals", benign=True)
        v = outcome_violations(ref, what="run without signals")
        if v: return v
        want, _ = scen.merge([x["state"] for x in ref.values()])
        if done: x = o
        else:
            x = ctx.run(program, c["nranks"], args=(c, os.path.join(root, "b"), os.path.join(root, "a", "ck", f"ckpt_{got:06d}")), name="continue", benign=True)
            v = outcome_violations(x, what=f"continuing from the dump of step {got}")
            if v: return [dict(y, sig="continue:" + y["sig"]) for y in v]
        st, _ = scen.merge([y["state"] for y in x.values()])
        v = scen.compare_states(c, want, st, 1e-9, f"{'signalled run that completed' if done else f'stop at step {got} and continue'} against uninterrupted run")
        return [v] if v else []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        for k, f in enumerate(c["faults"]):
            for a in (f["at"] // 2, f["at"] - 1):
                if a > 0: yield dict(c, faults=c["faults"][:k] + [dict(f, at=a)] + c["faults"][k + 1:])
        if c.get("lb") is not None: yield dict(c, lb=None)
        for k in range(len(c.get("extra", []))): yield dict(c, extra=c["extra"][:k] + c["extra"][k + 1:])
        if c["iv"] != 1000: yield dict(c, iv=1000)
        if c["keep"]: yield dict(c, keep=None)
        if c["cbs"]: yield dict(c, cbs=False)
        for q in scen.shrink_grid(c):
            q = dict(q, faults=[f for f in q["faults"] if f["rank"] < q["nranks"]])
            if q["faults"]: yield q
PROP = P10()
