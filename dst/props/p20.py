"""P20 callback protocol: every callback runs exactly when its stage and interval say, on all ranks together."""
import math
from .. import scen, mix
from ..simlib import L
from ..core import Prop, V, outcome_violations

PUSH = ["_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2"]
STAGES = ["init", "start", "maxwell_1", "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end", "final"]
PER_SPECIES = PUSH + ["current_deposition"]

def program(rank, cfg):
    from lambdapic import callback
    from lambdapic.callback.callback import Callback
    sim = scen.build(cfg, add=lambda sim, sp: [sp[k].disable() for k in cfg["off"]]); log = []; asked = []
    def note(k, s):
        t = L.sim_steps()
        for _ in range((k + rank) % 3): L.sim_user_yield(1)
        log.append((k, s.itime, s.ispec if cfg["on"][k]["stage"] in PER_SPECIES else getattr(s, "ispec", None), s.time, t, L.sim_steps()))
    def interval(k, iv):
        if iv == "pred": 
            def pred(s): asked.append((k, s.itime)); return s.itime % 2 == 1
            return pred
        return iv * sim.dt if isinstance(iv, float) else iv
    def make(k, c):
        iv = interval(k, c["iv"]); st = c["stage"]; form = c["form"]
        if form == "plain":
            def f(s): note(k, s)
            return f
        if form in ("deco", "default"):
            @callback(**({} if form == "default" else {"stage": st}), interval=iv)
            def f(s): note(k, s)
            return f
        class C(Callback):
            stage = "maxwell_2" if form == "late" else st
            def __init__(self): self.interval = iv
            def _call(self, s): note(k, s)
        f = C()
        f.stage = st
        return f
    cbs = [make(k, c) for k, c in enumerate(cfg["on"])]
    for n in cfg["segments"]: sim.run(nsteps=n, callbacks=cbs)
    return dict(log=log, itime=sim.itime, time=sim.time, dt=sim.dt, asked=asked, nspec=len(sim.species))

def expected(cfg, dt, floats):
    """The calls that have to be made, in order: (callback, step, species)."""
    out = []; it = 0; on = cfg["on"]
    def stage(name, it, ispec=None):
        for k, c in enumerate(on):
            if c["stage"] != name: continue
            iv = c["iv"]
            if iv == "pred": hit = it % 2 == 1
            elif isinstance(iv, float): hit = it in floats[k]
            else: hit = it % iv == 0
            if hit: out.append((k, it, ispec))
    for n in cfg["segments"]:
        stage("init", it)
        for it in range(it, it + n):
            stage("start", it); stage("maxwell_1", it)
            for s in range(len(cfg["species"])):
                if s in cfg["off"]: continue
                for p in PUSH: stage(p, it, s)
                stage("current_deposition", it, s)
            for p in STAGES[4:8]: stage(p, it)
        it += 1 if n else 0
        stage("final", it)
    return out, it

class P20(Prop):
    id = "P20"; quick_s = 15.0
    rule = "A case draws a simulation on 1-5 ranks with up to eight callbacks of every stage and form (decorated, class based, stage assigned late, plain function) whose intervals count steps, physical time or ask a function, some species switched off, load balancing, and the run cut into segments; callbacks give way to the other ranks at random. Every rank's record of calls is compared with the calls that stages and intervals demand, and start and end of each call on all ranks with each other."
    assumptions = ["A time interval that falls on a step to within rounding may trigger at that step or the next, never at both."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 6), nmax=20); c["cbs"] = False
        scen.add_mask(rng, c)
        c["lb"] = rng.choice([None, None, 1e-6]); c["e0"] = 0.0; c["cfl"] = rng.uniform(0.4, 0.95)
        if rng.random() < 0.15: c["nranks"] = 1
        if c["dim"] == 2: c["steps"] = rng.choice([c["steps"], 12, 25 if tier == "thorough" else 12])
        n = c["steps"]; seg = []
        while n and len(seg) < 3 and rng.random() < 0.5: k = rng.randint(0, n); seg.append(k); n -= k
        c["segments"] = seg + ([n] if n or not seg else [])
        c["off"] = [k for k in range(len(c["species"])) if rng.random() < 0.15]
        on = []
        for k in range(rng.randint(1, 8)):
            st = rng.choice(STAGES + (PUSH if rng.random() < 0.4 else [])); form = rng.choice(["deco", "deco", "cls", "late", "default", "plain"])
            if form in ("default", "plain"): st = "end"
            iv = 1 if form == "plain" else rng.choice([1, 1, 2, 3, 7, "pred", 2.0, 3.0, 4.0, rng.uniform(0.4, 6.0)])
            on.append(dict(stage=st, iv=iv, form=form))
        c["on"] = on
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="run with callbacks")
        if v: return v
        vals = o.values(); on = c["on"]; dt = vals[0]["dt"]
        logs = [x["log"] for x in vals]
        calls = [[(k, it, sp) for k, it, sp, *_ in l] for l in logs]
        for r in range(1, len(calls)):
            if calls[r] != calls[0]:
                n = next((i for i, (a, b) in enumerate(zip(calls[0], calls[r])) if a != b), min(len(calls[0]), len(calls[r])))
                d = lambda l: "nothing" if n >= len(l) else f"{on[l[n][0]]} at step {l[n][1]}"
                return [V("ranks-differ", f"call {n}: rank 0 ran {d(calls[0])}, rank {r} ran {d(calls[r])}")]
        floats = {k: {it for q, it, _ in calls[0] if q == k} for k, q in enumerate(on) if isinstance(q["iv"], float)}
        want, end = expected(c, dt, floats)
        for x in vals:
            if x["itime"] != end or abs(x["time"] - end * dt) > 1e-9 * dt * (end + 1): return [V("clock", f"after {c['segments']} steps the run is at step {x['itime']}, t={x['time'] / dt:.6g} dt")]
        if want != calls[0]:
            n = next((i for i, (a, b) in enumerate(zip(want, calls[0])) if a != b), min(len(want), len(calls[0])))
            d = lambda l: "nothing" if n >= len(l) else f"stage {on[l[n][0]]['stage']} ({on[l[n][0]]}) at step {l[n][1]} with species {l[n][2]}"
            return [V("protocol", f"call {n} had to be {d(want)}, but was {d(calls[0])}")]
        for k, hits in floats.items():
            iv = on[k]["iv"]; st = on[k]["stage"]
            if st in ("init", "final") or (st in PER_SPECIES and all(s in c["off"] for s in range(len(c["species"])))): continue
            cnt = 0
            for it in range(end):   # a visit falls into period floor(it/iv); each period that a step begins counts once
                cnt += it in hits
                lo = max(0, math.floor((it - 1e-5) / iv)) + 1; hi = math.floor((it + 1e-5) / iv) + 1
                if iv < 1: lo = hi = it + 1
                if not lo <= cnt <= hi: return [V("time-interval", f"callback with an interval of {iv:g} dt ran {cnt} times up to step {it} (at steps {sorted(h for h in hits if h <= it)}), expected {hi}")]
        for i in range(len(calls[0])):
            k, it, _, t, *_ = logs[0][i]
            if abs(t - it * dt) > 1e-9 * dt * (it + 1): return [V("time", f"callback {on[k]} saw t={t / dt:.6g} dt at step {it}")]
            if i:
                end_ = max(l[i - 1][5] for l in logs); r = min(range(len(logs)), key=lambda r: logs[r][i][4])
                if logs[r][i][4] < end_: return [V("not-together", f"rank {r} began {on[k]} of step {it} while another rank was still in {on[logs[0][i - 1][0]]} of step {logs[0][i - 1][1]}")]
        return []
    def shrink(self, c):
        for k in range(len(c["on"])):
            if len(c["on"]) > 1: yield dict(c, on=c["on"][:k] + c["on"][k + 1:])
        if len(c["segments"]) > 1: yield dict(c, segments=[sum(c["segments"])])
        if c["segments"][-1] > 1: yield dict(c, segments=c["segments"][:-1] + [c["segments"][-1] - 1]); yield dict(c, segments=[max(1, c["segments"][0] // 2)])
        if c["off"]: yield dict(c, off=[])
        if c["lb"] is not None: yield dict(c, lb=None)
        for q in scen.shrink_grid(c):
            if q["steps"] == c["steps"] and all(k < len(q["species"]) for k in q["off"]): yield q
PROP = P20()
