"""P08 checkpoint/restart: continuing from any checkpoint gives the run that was never interrupted, and writing checkpoints changes nothing."""
import os
from .. import scen, mix, qed
from ..core import Prop, V, outcome_violations

def recorder(dig):
    """Digest of everything this rank owns at the end of each step."""
    from lambdapic import callback
    @callback(stage="end")
    def rec(s): dig[s.itime] = scen.digest(scen.observe(s))
    return rec

def run_program(rank, cfg, root):
    q = "nseed" in cfg
    sim = qed.build(cfg, rank) if q else scen.build(cfg); rec = {}; log = []; dig = {}
    cbs = ([qed.haste(cfg)] if q else []) + mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log) + [recorder(dig)]
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(state=scen.observe(sim), itime=sim.itime, time=sim.time, note=rec.get("note", []), dig=dig)

def resume_program(rank, cfg, ckpt, root):
    from lambdapic.callback.restart import RestartDump
    sim = RestartDump.load(ckpt); q = "nseed" in cfg
    start = (sim.itime, sim.time, scen.digest(scen.observe(sim)))
    if q: qed.seed_numba(cfg["nseed"] * 31 + rank + 77)
    rec = {}; log = []; dig = {}
    cbs = ([qed.haste(cfg)] if q else []) + mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log) + [recorder(dig)]
    sim.run(nsteps=cfg["steps"] - sim.itime, callbacks=cbs)
    return dict(state=scen.observe(sim), itime=sim.itime, time=sim.time, start=start, note=rec.get("note", []), dig=dig)

def warm_restart():
    import tempfile, shutil
    for w in (scen.W2P, scen.W3P, scen.W2):
        d = tempfile.mkdtemp(prefix="dstwarm", dir="/dev/shm")
        try:
            sp = [dict(kind="electron", n=4)] + ([dict(kind="electron", n=4, pol=True, name="pol"), dict(kind="photon", n=4, name="ph")] if w is scen.W2 else [])
            c = dict(w, species=sp, steps=1, cbs=False, feats=[dict(f="ckpt", iv=1, keep=None)])
            run_program(0, c, d); resume_program(0, dict(c, steps=2), d + "/f0/ckpt_000000", d + "/b")
        finally: shutil.rmtree(d)

class P08(Prop):
    id = "P08"; quick_s = 18.0
    stub = Prop.stub + ["file system calls (real files in a scratch directory; every operation is a scheduling point, writes may be short)"]
    rule = "A case draws a complete simulation on 1-4 ranks with drive callbacks, load balancing and checkpoints at random intervals; a fresh job loads a random checkpoint and runs to the same end, possibly stopping and resuming once more from its own checkpoint; what each rank holds after loading is compared bit for bit with what it held when the checkpoint was written, and its final fields, particles and step counter with the uninterrupted run, which is itself compared with a run that writes no checkpoint."
    assumptions = ["The job restarts on the rank count it was dumped with (the documented requirement).", "With QED on, a restart is not promised to continue the random streams: there the loaded state is compared and the run must finish; collisions are off."]
    def warm(self):
        scen.warm_full(); warm_restart(); qed.warm()
    def gen(self, rng, tier, i):
        c = dict(qed.gen(rng, steps=(3, 6), nmax=15), haste=0.8, e0=5e15) if rng.random() < 0.3 else scen.gen_full(rng, steps=(2, 6), nmax=80)
        scen.add_mask(rng, c)
        if rng.random() < 0.15: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["lb"] = rng.choice([None, None, 1e-6, 0.2])
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(0, 2), kinds=["setmom", "laser", "laser", "note", "density", "extract"])
        c["feats"].append(dict(f="ckpt", iv=rng.choice([1, 2, 3, "1.6", "pred"]), keep=rng.choice([None, 1, 2])))
        c["sched"]["ioshort"] = rng.choice([0.0, 0.0, 0.1])
        c["pick"] = rng.random(); c["twice"] = rng.random() < 0.3
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        o = ctx.run(run_program, c["nranks"], args=(c, os.path.join(root, "a")), root=root)
        v = outcome_violations(o, what="run with checkpoints")
        if v: return v
        want, dup = scen.merge([x["state"] for x in o.values()])
        plain = dict(c, feats=[f for f in c["feats"] if f["f"] != "ckpt"]); random_ = "nseed" in c
        if not random_: p = ctx.run(run_program, c["nranks"], args=(plain, os.path.join(root, "p")), name="no checkpoints", benign=True)
        if not random_:
            v = outcome_violations(p, what="run without checkpoints")
            if v: return v
            ref, _ = scen.merge([x["state"] for x in p.values()])
            v = scen.compare_states(c, ref, want, 1e-9, "run with checkpoints against run without", sig="passive:")
            if v: return [v]
        prev = o.values()
        k = next(i for i, f in enumerate(c["feats"]) if f["f"] == "ckpt"); d = os.path.join(root, "a", f"f{k}")
        cks = sorted(os.listdir(d))
        if not cks: return []
        for n in range(2 if c["twice"] else 1):
            ck = cks[int(c["pick"] * len(cks)) % len(cks)]
            sub = os.path.join(root, f"r{n}")
            r = ctx.run(resume_program, c["nranks"], args=(c, os.path.join(d, ck), sub), name=f"resume from {ck}", root=root)
            v = outcome_violations(r, what=f"job restarted from {ck}")
            if v: return [dict(x, sig="resume:" + x["sig"]) for x in v]
            bad = [k for k, (x, y) in enumerate(zip(r.values(), prev)) if x["start"][2] != y["dig"].get(x["start"][0] - 1)]
            if bad: return [V("resume:state", f"what rank {bad[0]} holds after loading {ck} is not what it held when it was written (step {r.values()[bad[0]]['start'][0] - 1})")]
            prev = r.values()
            st = {x["start"][0] for x in r.values()}
            if st != {int(ck.split("_")[-1]) + 1}: return [V("resume:step", f"{ck} resumes at step {st}")]
            if any(abs(x["time"] - y["time"]) > 1e-9 * (abs(y["time"]) + 1e-30) or x["itime"] != y["itime"] for x, y in zip(r.values(), o.values())): return [V("resume:clock", f"resumed run ends at {[(x['itime'], x['time']) for x in r.values()][0]}, uninterrupted at {[(x['itime'], x['time']) for x in o.values()][0]}")]
            got, dup = scen.merge([x["state"] for x in r.values()])
            if dup: return [V("resume:patch-twice", f"patches {dup} live on two ranks after the restart")]
            v = None if random_ else scen.compare_states(c, want, got, 1e-9, f"restart from {ck}", sig="resume:")
            if v: return [v]
            if r.orphans: return [V("resume:orphan-message", f"{r.orphans} message(s) never received")]
            for x, y in zip(r.values(), o.values()):
                exp = [q for q in y["note"] if q[1] >= x["start"][0]]
                if x["note"] != exp: return [V("resume:callbacks", f"after the restart callbacks ran at {x['note']}, in the uninterrupted run at {exp}")]
            nd = os.path.join(sub, f"f{k}")
            cks = sorted(os.listdir(nd)) if os.path.isdir(nd) else []; d = nd
            if not cks: break
        return []
    def shrink(self, c):
        if c["twice"]: yield dict(c, twice=False)
        for k in range(len(c["feats"])):
            if c["feats"][k]["f"] != "ckpt": yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        if c["sched"].get("ioshort"): yield dict(c, sched=dict(c["sched"], ioshort=0.0))
        yield from scen.shrink_grid(c)
PROP = P08()
