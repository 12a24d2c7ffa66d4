"""P19 auto-reload: whenever the input script changes, all ranks stop after the same step and run the new version as if started with it."""
import os, sys, time
from .. import scen, mix
from ..simlib import L
from ..core import Prop, V, outcome_violations

class Done(BaseException): "ends an idle job whose work is done"

G = None   # the state of this rank: set by program(), used by the script and the seams
class Rank:
    def __init__(self, rank, cfg, root, log):
        self.rank, self.cfg, self.root, self.log = rank, cfg, root, log
        self.script = os.path.join(root, "inp.py")
        self.segs = []; self.cur = None; self.errors = []; self.user = []; self.idle = 0; self.total_idle = 0; self.done = None; self.seen = -1; self.n = 0
    # ---- edits of the script, in their order, each by the rank that meets its trigger
    def made(self):
        try: return os.stat_(os.path.join(self.log, "edits")).st_size // 64
        except OSError: return 0
    def trigger(self, at, late=False):
        """Called at every point where an edit may fall; late: after the file was looked at."""
        k = self.made()
        if k >= len(self.cfg["edits"]): return
        if k != self.seen: self.seen = k; self.n = 0
        e = self.cfg["edits"][k]
        if at == "idle":
            if self.rank: return
        else:
            if e["rank"] != self.rank or e["at"] != at or bool(e.get("late")) != late: return
            if at == "stat" and not self.segs and self.cfg["versions"][k + 1]["kind"] != "good": return   # a job cannot start from a broken script
            self.n += 1
            if self.n <= e["n"]: return
        self.edit(k, at, late)
    def edit(self, k, at, late):
        e = self.cfg["edits"][k]
        seg = bound = -1
        if at == "load": seg, bound = len(self.segs), 0
        elif self.cur is not None:
            seg = len(self.segs) - 1; bound = self.cur.itime - (at == "stat")   # the step under way
        place(self.script, self.cfg, k + 1)
        with open(os.path.join(self.log, "edits"), "ab") as f: f.write(f"{k + 1} {self.rank} {at} {int(late)} {seg} {bound}".ljust(63).encode() + b"\n")

def text(cfg, k):
    v = cfg["versions"][k]
    if v["kind"] == "syntax": return "from dst.props import p19 as H\nthis is (not python\n"
    if v["kind"] == "empty": return ""
    head = f"from dst.props import p19 as H\n{v['var']}, species = H.make({k:3d})\n"
    if v["kind"] == "raise": return head + "raise RuntimeError('the script is wrong')\n"
    return head + (f"callbacks = H.callbacks({k:3d}, {v['var']})\n" if v["cbs"] else "")

def place(path, cfg, k):
    """Puts version k at the place of the script in one step, with its own modification time."""
    L.sim_io_hold(1)
    if cfg["versions"][k]["kind"] == "missing": os.unlink(path)
    else:
        with open(path + ".new", "w") as f: f.write(text(cfg, k))
        t = int(cfg["versions"][k]["mtime"] * 1e9); os.utime(path + ".new", ns=(t, t))
        os.replace(path + ".new", path)
    L.sim_io_hold(0)

def make(k):
    """What the script of version k does: a simulation and its species."""
    import lambdapic.core.species as sp
    G.trigger("load"); L.sim_user_yield(1)
    v = G.cfg["versions"][k]; have = list(sp._ALL_SPECIES)
    sim = scen.make_sim(v["cfg"], nsteps=v["cfg"]["steps"])
    sp._ALL_SPECIES[:] = have
    s = scen.make_species(v["cfg"])
    if not v["implicit"]: sim.add_species(s)
    sim._version = k
    return sim, s

def callbacks(k, sim):
    from lambdapic import callback
    @callback(stage="maxwell_1")
    def note(s): G.user.append((len(G.segs) - 1, s._version, k, s.itime))
    return [note]

def harness_callbacks(sim):
    from lambdapic import callback
    v = G.cfg["versions"][sim._version]
    @callback(stage="init")
    def fill(s):
        scen.finish_build(s, v["cfg"])
        G.cur = s; G.segs.append([s._version, s.itime, -1])
    cbs = [fill]
    for st in ("start", "current_deposition", "end"):
        @callback(stage=st)
        def point(s, st=st):
            if st == "end": G.segs[-1][2] = s.itime
            G.trigger("step")
            if v["kind"] == "crash" and st == "end" and s.itime == v["cfg"]["steps"] - 1: raise RuntimeError("a callback fails")
        cbs.append(point)
    return cbs

def seams():
    """The file's modification time, the end of a run and waiting are the points where this rank and an editor can meet."""
    from lambdapic.simulation import Simulation
    os.stat_ = os.stat
    def stat(path, *a, **k):
        if G is None or not isinstance(path, (str, os.PathLike)) or os.fspath(path) != G.script: return os.stat_(path, *a, **k)
        L.sim_user_yield(2); G.trigger("stat")
        try: return os.stat_(path, *a, **k)
        finally: G.trigger("stat", late=True); L.sim_user_yield(3)
    os.stat = stat
    run = Simulation.run
    def run_(self, *a, callbacks=None, **k):
        if not hasattr(self, "_version"): return run(self, *a, callbacks=callbacks, **k)
        G.done = None
        try:
            r = run(self, *a, callbacks=list(callbacks or []) + harness_callbacks(self), **k)
            if r is None: G.done = self._version
            return r
        except Exception as e:
            G.errors.append((self._version, repr(e))); raise
        finally: G.cur = None; G.idle = 0
    Simulation.run = run_
    sleep = time.sleep
    def sleep_(t):
        if G is not None and G.cur is None:
            G.idle += 1; G.total_idle += 1
            G.trigger("idle")
            k = G.made()
            if k == len(G.cfg["edits"]) and G.done == len(G.cfg["versions"]) - 1 and G.idle >= 3: raise Done
            if G.total_idle > 60: raise Done
        sleep(t)
    time.sleep = sleep_

def program(rank, cfg, root, log):
    global G
    import pathlib
    import lambdapic.core.species as sp
    from lambdapic.cli.auto_reload import AutoReload
    sys.dont_write_bytecode = not cfg["pyc"]
    sp._ALL_SPECIES.clear()
    G = Rank(rank, cfg, root, log); seams()
    ar = AutoReload(pathlib.Path(G.script), exit_on_finish=cfg["exit"])
    try: ar.run()
    except Done: pass
    L.sim_io_hold(1)
    sim = ar.sim
    return dict(segs=G.segs, user=G.user, errors=G.errors, done=G.done, version=getattr(sim, "_version", None), itime=sim.itime, state=scen.observe(sim) if G.done is not None else None)

def alone(rank, cfg, k):
    """Version k run by itself."""
    global G
    import lambdapic.core.species as sp
    sp._ALL_SPECIES.clear()
    G = Rank(rank, dict(cfg, edits=[]), "/nonexistent", "/nonexistent"); os.stat_ = os.stat
    ns = {}
    exec(text(cfg, k), ns)
    sim = ns[cfg["versions"][k]["var"]]
    sim.run(callbacks=list(ns.get("callbacks", [])) + harness_callbacks(sim))
    return dict(state=scen.observe(sim), itime=sim.itime)

class P19(Prop):
    id = "P19"; quick_s = 18.0
    rule = "A case draws two to six versions of an input script (simulations of any dimension, grid, species, length, names, with and without callbacks and explicit registration; some versions broken: syntax error, exception, empty, file missing, failing callback) and the moments at which one replaces another: at a stage of a step, just before or after a rank looks at the file, while a rank loads it, or while the job waits; 1-4 ranks run them under auto-reload, with random schedules, and what the last one leaves is compared with that version run by itself."
    assumptions = ["A version of the script appears in one step, with a modification time of its own (later or earlier than the last).", "A version that replaces another after the last look of the last step of a run may be ignored if the job ends with that run."]
    def warm(self):
        scen.warm_full()
        import lambdapic.cli.auto_reload
    def gen(self, rng, tier, i):
        nr = rng.choice([1, 2, 2, 3, 3, 4]); nv = rng.randint(2, 4 if tier == "quick" else 6); vs = []; t = 1.7e9 + rng.random()
        for k in range(nv):
            while (c := scen.gen_full(rng, steps=(1, 4), nmax=20, ranks=nr))["nranks"] != nr: pass
            kind = "good" if k in (0, nv - 1) else rng.choice(["good", "good", "good", "syntax", "raise", "empty", "missing"] + (["crash"] if nr == 1 else []))
            if kind == "missing" and vs[-1]["kind"] == kind: kind = "good"
            vs.append(dict(kind=kind, cfg=c, var=rng.choice(["sim", "sim", "a", "z"]), cbs=rng.random() < 0.6, implicit=rng.random() < 0.3, mtime=t))
            t += rng.choice([1e-3, 0.1, 0.1, 3.0, 3.0, -7.3])
        while len({v["mtime"] for v in vs}) < nv: vs[-1]["mtime"] += 0.5
        c = dict(versions=vs, nranks=nr, exit=rng.random() < 0.6, pyc=rng.random() < 0.3, sched=scen.gen_sched(rng), omp=rng.choice([1, 1, 3]))
        c["edits"] = []
        for k in range(1, nv):
            at = rng.choice(["step", "step", "stat", "stat", "load", "idle"])
            e = dict(rank=rng.randrange(nr), at=at, n=rng.choice([0, 0, 1, 2, 5]) if at != "load" else 0)
            if at == "stat" and rng.random() < 0.5: e["late"] = True
            c["edits"].append(e)
        return c
    def execute(self, c, ctx):
        base = ctx.dir(); root = os.path.join(base, "w"); log = os.path.join(base, "log"); os.mkdir(root); os.mkdir(log)
        t = c["versions"][0]["mtime"]
        with open(os.path.join(root, "inp.py"), "w") as f: f.write(text(c, 0))
        os.utime(os.path.join(root, "inp.py"), ns=(int(t * 1e9),) * 2)
        o = ctx.run(program, c["nranks"], args=(c, root, log), root=root)
        made = []
        if os.path.exists(os.path.join(log, "edits")):
            for l in open(os.path.join(log, "edits")): k, r, at, late, seg, bound = l.split(); made.append((int(k), int(r), at, int(late), int(seg), int(bound)))
        story = f"{c['nranks']} rank(s), versions {[v['kind'] for v in c['versions']]}, changed at " + "; ".join(f"{a}{' after the look' if l else ''} of rank {r} (run {s}, step {b})" for _, r, a, l, s, b in made)
        v = outcome_violations(o, what=story)
        if v: return v
        if o.orphans: return [V("orphan-message", f"{story}: {o.orphans} message(s) never received")]
        x = o.values(); n = c["nranks"]; kinds = [q["kind"] for q in c["versions"]]
        for r in range(n):
            bad = [e for e in x[r]["errors"] if kinds[e[0]] != "crash"]
            if bad: return [V("error", f"{story}: version {bad[0][0]} fails on rank {r}: {bad[0][1]}")]
            if x[r]["segs"] != x[0]["segs"]: return [V("ranks-differ", f"{story}: rank 0 ran (version, first step, last step) {x[0]['segs']}, rank {r} ran {x[r]['segs']}")]
        segs = x[0]["segs"]
        for k, (v_, first, last) in enumerate(segs):
            if kinds[v_] not in ("good", "crash"): return [V("broken-run", f"{story}: version {v_} is broken and was run")]
            if first != 0: return [V("not-from-start", f"{story}: run {k} of version {v_} began at step {first}: {segs}")]
            if k and v_ < segs[k - 1][0]: return [V("old-version", f"{story}: an older version was run after a newer one: {segs}")]
        gone = {k for k in range(1, len(made) + 1) for m in made if m[0] >= k and kinds[m[0]] == "missing" and m[4] in (-1, made[k - 1][4])}   # not there any more at the next look
        for k, r, at, late, seg, bound in made:
            if k not in gone and 0 <= seg < len(segs) and bound >= -1 and segs[seg][2] > bound + 1 and (at != "load" or segs[seg][0] < k):
                return [V("late-stop", f"{story}: version {k} was there in step {bound} of run {seg}, which went on to step {segs[seg][2]}: {segs}")]
        crashes = max(len(q["errors"]) for q in x)
        if len(segs) > 1 + len(made) + crashes: return [V("restarts", f"{story}: {len(segs)} runs for {len(made)} changes: {segs}")]
        for q in x:
            for seg, sv, cv, it in q["user"]:
                if sv != cv: return [V("stale-callback", f"{story}: a callback of version {cv} ran in version {sv}")]
        want = {(k, it) for k, (v_, _, last) in enumerate(segs) for it in range(last + 1) if c["versions"][v_]["cbs"]}
        for r, q in enumerate(x):
            got = {(s, it) for s, _, _, it in q["user"]}
            # the step in which a run stopped may have been noted without reaching its end
            if want - got: return [V("callbacks-lost", f"{story}: rank {r}: the script's callbacks did not run in (run, step) {sorted(want - got)[:5]}")]
        final = segs[-1][0] if segs else None
        # a job that ends with its run does not wait for what came in its last step
        must = max([m[0] for m in made if m[0] not in gone and kinds[m[0]] in ("good", "crash") and not (c["exit"] and segs and m[4] in (-1, len(segs) - 1) and m[5] >= segs[-1][2] - 1)], default=0)
        if final is None or final < must or x[0]["done"] != final: return [V("last-version", f"{story}: the last version that had to be seen is {must}, the job ended with version {x[0]['done']}: runs {segs}")]
        if any(q["version"] != final or q["itime"] != c["versions"][final]["cfg"]["steps"] for q in x): return [V("not-to-end", f"{story}: ended at {[(q['version'], q['itime']) for q in x]}, runs {segs}")]
        ref = ctx.run(alone, n, args=(c, final), name="alone", benign=True)
        v = outcome_violations(ref, what="the last version by itself")
        if v: return v
        s, d1 = scen.merge([q["state"] for q in ref.values()]); g, d2 = scen.merge([q["state"] for q in x])
        if d1 or d2: return [V("patches", f"patches {d1 or d2} on two ranks")]
        v = scen.compare_states(c["versions"][final]["cfg"], s, g, 1e-9, f"{story}: version {final} after reloading against the same by itself")
        return [v] if v else []
    def size(self, c): return len(c["edits"]) * 1000 + c["nranks"] * 100 + sum(sum(v["cfg"]["np"]) + v["cfg"]["steps"] for v in c["versions"])
    def shrink(self, c):
        n = len(c["versions"])
        for k in range(1, n - 1): yield dict(c, versions=c["versions"][:k] + c["versions"][k + 1:], edits=c["edits"][:k - 1] + c["edits"][k:])
        if n > 2: yield dict(c, versions=c["versions"][1:], edits=c["edits"][1:]) if c["versions"][1]["kind"] == "good" else dict(c, versions=[c["versions"][0]] + c["versions"][2:], edits=[c["edits"][0]] + c["edits"][2:])
        for k, v in enumerate(c["versions"]):
            def put(**kw): return dict(c, versions=c["versions"][:k] + [dict(v, **kw)] + c["versions"][k + 1:])
            for a, d in (("cbs", False), ("implicit", False), ("var", "sim")):
                if v[a] != d: yield put(**{a: d})
            for q in scen.shrink_grid(v["cfg"]):
                if q["nranks"] == c["nranks"]: yield put(cfg=q)
        for k, e in enumerate(c["edits"]):
            for a, d in (("n", 0), ("rank", 0), ("late", False)):
                if e.get(a, d) != d: yield dict(c, edits=c["edits"][:k] + [dict(e, **{a: d})] + c["edits"][k + 1:])
        if c["pyc"]: yield dict(c, pyc=False)
        if c["omp"] > 1: yield dict(c, omp=1)
PROP = P19()
