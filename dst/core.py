"""Search driver: generates cases, runs them on a pool of simulator workers, minimises and replays failures, writes evidence."""
from __future__ import annotations
import ctypes, hashlib, importlib, json, os, pickle, random, selectors, signal, struct, sys, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent

class HarnessError(Exception):
    pass

def V(sig: str, msg: str) -> dict:
    return {"sig": sig, "msg": msg[:1200]}

# ------------------------------------------------------------------ execution of one case
class Ctx:
    """Runs the simulated executions that one case consists of, and keeps their traces."""
    def __init__(self, case, record=False, replay=None, keep_log=False):
        self.case, self.record, self.replay, self.keep_log = case, record, replay, keep_log
        self.runs, self.decs, self.logs = [], [], []
        self.scratch = None
    def run(self, program, nranks, *, name="run", sched=None, faults=None, args=(), benign=False, **kw):
        from . import simlib
        i = len(self.runs)
        seed = int.from_bytes(hashlib.blake2b(f"{self.case.get('seed', 0)}/{i}".encode(), digest_size=8).digest(), "little")
        sched = {} if benign else dict(self.case.get("sched", {}) if sched is None else sched)
        rp = None
        if self.replay is not None and i < len(self.replay):
            rp = self.replay[i]
        if "omp" not in kw and "omp" in self.case: kw["omp"] = self.case["omp"]
        o = simlib.run(program, nranks, seed=seed, sched=sched, faults=faults, args=args, replay=rp, keep_log=self.keep_log, **kw)
        if o.state == "internal":
            raise HarnessError(f"simulator: {o.note}")
        self.decs.append(simlib.decisions() if self.record else None)
        if self.keep_log: self.logs.append(o.log)
        self.runs.append({"name": name, "nranks": nranks, "state": o.state, "hash": o.hash, "steps": o.steps, "now": o.now, "ndec": o.ndec,
                          "ctr": {k: v for k, v in o.ctr.items() if v}, "faults": [f["kind"] for f, n in zip(faults or [], o.fired) if n],
                          "benign": benign or nranks == 1 and not faults})
        return o
    def dir(self):
        """A scratch directory for this case, the only place its files may go."""
        if self.scratch is None:
            import tempfile
            base = os.environ.get("DST_SCRATCH", "/dev/shm")
            self.scratch = tempfile.mkdtemp(prefix="dstcase", dir=base)
        return self.scratch
    def close(self):
        if self.scratch:
            import shutil
            shutil.rmtree(self.scratch, ignore_errors=True); self.scratch = None

def outcome_violations(o, expect_done=True, what="run") -> list[dict]:
    """The violations that any run which must complete shows by itself."""
    out = []
    if o.state == "deadlock":
        b = "; ".join(f"rank {r} blocked in {w}{a}" for r, w, a in o.blocked)
        kinds = "+".join(sorted({w for _, w, _ in o.blocked}))
        out.append(V(f"deadlock:{kinds}", f"{what}: no rank can make progress: {b} {o.note}"))
    elif o.state == "crashed":
        out.append(V("crash", f"{what}: rank died: {o.crashed} {o.note}"))
    elif o.state == "hang":
        out.append(V("hang", f"{what}: no progress within the wall limit"))
    elif o.state == "steplimit":
        out.append(V("livelock", f"{what}: step limit reached without finishing ({o.steps} steps)"))
    elif o.state == "aborted" and expect_done:
        out.append(V("abort", f"{what}: rank {o.abort_rank} aborted the job: {o.note}"))
    if expect_done and o.state == "done":
        for r, e in o.errors():
            out.append(V("error:" + e.split(":")[0].split("(")[0], f"{what}: rank {r}: {e}"))
    return out

def execute(prop, case, record=False, replay=None, keep_log=False):
    ctx = Ctx(case, record, replay, keep_log)
    t = time.monotonic()
    try:
        v = prop.execute(case, ctx)
        return {"v": v or [], "runs": ctx.runs, "decs": ctx.decs if record else None, "logs": ctx.logs if keep_log else None, "t": time.monotonic() - t}
    except HarnessError as e:
        return {"harness": str(e), "v": [], "runs": ctx.runs, "decs": None, "t": time.monotonic() - t}
    except Exception:
        return {"harness": traceback.format_exc(), "v": [], "runs": ctx.runs, "decs": None, "t": time.monotonic() - t}
    finally:
        ctx.close()

# ------------------------------------------------------------------ worker pool
def _send(fd, obj):
    b = pickle.dumps(obj, protocol=5); b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv: mv = mv[os.write(fd, mv):]
def _recvn(fd, n):
    parts = []
    while n:
        b = os.read(fd, min(n, 1 << 20))
        if not b: raise EOFError
        parts.append(b); n -= len(b)
    return b"".join(parts)
def _recv(fd):
    return pickle.loads(_recvn(fd, struct.unpack("<Q", _recvn(fd, 8))[0]))

class Pool:
    def __init__(self, prop, n):
        self.prop, self.workers, self.sel = prop, [], selectors.DefaultSelector()
        self.cpus = sorted(os.sched_getaffinity(0))
        for i in range(n): self.spawn(i)
    def spawn(self, i):
        a, b = os.pipe(); c, d = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b); os.close(c)
                for w in self.workers:
                    for fd in w["fds"]:
                        try: os.close(fd)
                        except OSError: pass
                try: os.sched_setaffinity(0, {self.cpus[i % len(self.cpus)]})
                except OSError: pass
                os.setpgid(0, 0)
                while True:
                    try: job = _recv(a)
                    except EOFError: break
                    _send(d, execute(self.prop, job["case"], job.get("record", False), job.get("replay"), job.get("keep_log", False)))
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(a); os.close(d)
        w = {"i": i, "pid": pid, "fds": (b, c), "job": None}
        self.workers.append(w); self.sel.register(c, selectors.EVENT_READ, w)
    def idle(self): return [w for w in self.workers if w["job"] is None]
    def submit(self, w, job, tag):
        w["job"] = (tag, job, time.monotonic()); _send(w["fds"][0], job)
    def poll(self, timeout=1.0):
        done = []
        for key, _ in self.sel.select(timeout):
            w = key.data
            try: res = _recv(w["fds"][1])
            except EOFError:
                tag, job, _ = w["job"] or (None, None, 0)
                done.append((tag, job, {"harness": "worker died", "v": [], "runs": [], "t": 0}))
                self.sel.unregister(w["fds"][1]); i = w["i"]
                for fd in w["fds"]: os.close(fd)
                self.workers.remove(w); os.waitpid(w["pid"], 0); self.spawn(i); continue
            tag, job, _ = w["job"]; w["job"] = None
            done.append((tag, job, res))
        return done
    def map(self, jobs, deadline=None):
        """Runs all jobs, returns results in order (None for those not started before the deadline)."""
        res = [None] * len(jobs); nxt = 0; pending = 0
        while True:
            for w in self.idle():
                if nxt < len(jobs) and (deadline is None or time.monotonic() < deadline):
                    self.submit(w, jobs[nxt], nxt); nxt += 1; pending += 1
            if pending == 0: return res
            for tag, _, r in self.poll():
                res[tag] = r; pending -= 1
    def close(self):
        for w in self.workers:
            for fd in w["fds"]:
                try: os.close(fd)
                except OSError: pass
        t = time.monotonic()
        for w in self.workers:
            while time.monotonic() - t < 5:
                p, _ = os.waitpid(w["pid"], os.WNOHANG)
                if p: break
                time.sleep(0.01)
            else:
                try: os.killpg(w["pid"], signal.SIGKILL)
                except OSError: pass
                try: os.waitpid(w["pid"], 0)
                except OSError: pass

# ------------------------------------------------------------------ minimisation
def rle(d):
    out = []
    for v in d:
        if out and out[-1][0] == v: out[-1][1] += 1
        else: out.append([v, 1])
    return out
def unrle(r): return [v for v, n in r for _ in range(n)]

def minimise(pool, prop, case, sig, budget):
    """Smaller case with the same violation signature, then fewer non-benign decisions."""
    end = time.monotonic() + budget
    hit = lambda r: r and not r.get("harness") and any(x["sig"] == sig for x in r["v"])
    steps = 0
    progress = True
    while progress and time.monotonic() < end - budget * 0.4:
        progress = False
        try: cands = list(prop.shrink(case))[:64]
        except Exception: cands = []; print(f"no smaller cases: {traceback.format_exc(limit=1)}", file=sys.stderr)
        for lo in range(0, len(cands), len(pool.workers)):
            batch = cands[lo:lo + len(pool.workers)]
            rs = pool.map([{"case": c} for c in batch]); steps += len(batch)
            good = [c for c, r in zip(batch, rs) if hit(r)]
            if good: case = good[0]; progress = True; break
            if time.monotonic() > end - budget * 0.4: break
    r = pool.map([{"case": case, "record": True}])[0]
    if not hit(r): return case, None, r, steps
    decs = r["decs"]
    # ddmin on the set of non-benign decisions across the runs of the case
    pos = [(i, j) for i, d in enumerate(decs) for j, v in enumerate(d) if v]
    def make(keep):
        ks = set(keep)
        return [[v if v and (i, j) in ks else 0 for j, v in enumerate(d)] for i, d in enumerate(decs)]
    def trial(sets):
        return [hit(x) for x in pool.map([{"case": case, "replay": make(s)} for s in sets], deadline=end)]
    keep = pos; n = 2
    if keep:
        if trial([[]])[0]: keep = []
    while len(keep) >= 1 and time.monotonic() < end:
        sz = max(1, (len(keep) + n - 1) // n)
        chunks = [keep[i:i + sz] for i in range(0, len(keep), sz)]
        sets = ([c for c in chunks] + [[x for k, c in enumerate(chunks) for x in c if k != q] for q in range(len(chunks))]) if len(chunks) > 1 else [[]]
        found = None
        W = len(pool.workers)
        for lo in range(0, len(sets), W):
            rs = trial(sets[lo:lo + W]); steps += len(rs)
            for s, ok in zip(sets[lo:lo + W], rs):
                if ok: found = s; break
            if found is not None or time.monotonic() > end: break
        if found is not None:
            keep = found; n = max(2, min(n - 1, len(keep)) if len(found) > sz else 2)
            if not keep: break
        else:
            if sz == 1: break
            n = min(len(keep), n * 2)
    decs = make(keep)
    for d in decs:
        while d and d[-1] == 0: d.pop()
    r2 = pool.map([{"case": case, "replay": decs, "keep_log": True}])[0]
    if not hit(r2):
        decs = r["decs"]; r2 = pool.map([{"case": case, "replay": decs, "keep_log": True}])[0]
    return case, decs, r2, steps

# ------------------------------------------------------------------ known findings
def load_findings(pid):
    out = []
    p = VERIF / "known_findings.jsonl"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("kind") == "finding": out.append(d)
    return out
def known(findings, case, v):
    for f in findings:
        if f["sig"] == v["sig"] and all(case.get(k) == x for k, x in f.get("case", {}).items()):
            return f
    return None

# ------------------------------------------------------------------ main
def write_replay(prop, case, decs, sig, msg, res):
    d = VERIF / "replays"; d.mkdir(exist_ok=True)
    h = hashlib.sha1(json.dumps([case, sig], sort_keys=True).encode()).hexdigest()[:10]
    path = d / f"{prop.id}-{h}.json"
    tail = []
    if res and res.get("logs"):
        for lg in res["logs"]: tail.append([list(x) for x in lg[-60:]])
    path.write_text(json.dumps({"property": prop.id, "signature": sig, "message": msg, "case": case,
        "decisions": [rle(x) for x in decs] if decs is not None else None, "hashes": [r["hash"] for r in res["runs"]] if res else None,
        "nonbenign_decisions": sum(1 for x in decs for v in x if v) if decs is not None else None, "trace_tail": tail}, default=str) + "\n")
    return path

def main(argv):
    pid = argv[0]
    prop = importlib.import_module(f"dst.props.{pid.lower()}").PROP
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for i, a in enumerate(argv):
        if a == "--tier": tier = argv[i + 1]
        if a == "--seed": seed = int(argv[i + 1])
    budget = float(os.environ.get("DST_BUDGET", prop.quick_s if tier == "quick" else prop.thorough_s))
    t0 = time.monotonic()
    from . import hook; hook.install()
    from . import scen
    scen.base_imports()
    warm_error = None
    if not os.environ.get("DST_NOWARM"):
        signal.alarm(300)   # a warm-up that never ends is left to the search as well
        try: prop.warm()
        except BaseException: warm_error = traceback.format_exc(); print(f"warm-up failed, searching without it:\n{warm_error}", file=sys.stderr)
        signal.alarm(0)
    if warm_error or os.environ.get("DST_NOWARM") == "crash": budget = max(budget, min(8 * budget, 240))   # every simulated run compiles for itself then
    import gc; gc.collect(); gc.freeze()   # the forked ranks then touch fewer shared pages
    t_warm = time.monotonic() - t0
    pool = Pool(prop, int(os.environ.get("DST_WORKERS", min(8, len(os.sched_getaffinity(0))))))
    try:
        if "--replay" in argv:
            return replay_main(prop, pool, argv[argv.index("--replay") + 1])
        if "--case" in argv:
            r = pool.map([{"case": json.loads(argv[argv.index("--case") + 1])}])[0]
            print(json.dumps({k: r[k] for k in r if k not in ("decs", "logs")}, indent=1, default=str)); return 0
        return search(prop, pool, tier, seed, budget, t0, t_warm, warm_error)
    finally:
        pool.close()

def replay_main(prop, pool, path):
    d = json.loads(Path(path).read_text())
    decs = [unrle(x) for x in d["decisions"]] if d["decisions"] is not None else None
    rs = pool.map([{"case": d["case"], "replay": decs}, {"case": d["case"], "replay": decs}])
    for r in rs:
        if r.get("harness"): print("harness error", r["harness"]); return 2
    same = all([x["hash"] for x in r["runs"]] == d["hashes"] for r in rs)
    hit = all(any(v["sig"] == d["signature"] for v in r["v"]) for r in rs)
    for v in rs[0]["v"]: print(f"  {v['sig']}: {v['msg']}")
    print(f"replay {'reproduces' if hit else 'does not reproduce'} {d['signature']}; execution {'identical' if same else 'differs from the recording'}")
    if hit: print(f"VIOLATION property={prop.id} replay={path}")
    return 1 if hit else 0

def search(prop, pool, tier, seed, budget, t0, t_warm, warm_error=None):
    findings = load_findings(prop.id)
    stats = {"cases": 0, "runs": 0, "steps": 0, "vtime": 0, "ctr": {}, "faults": {}, "states": {}, "hashes": set(), "nontrivial": set(), "dec": 0}
    harness, failures, samples, shown = [], [], [], {}
    W = len(pool.workers)
    nxt = 0; t_search = time.monotonic(); end = t_search + budget
    pinned = [dict(f["pinned"]) for f in findings if f.get("pinned")]
    fixed_cases = pinned + list(prop.corpus(tier))
    def case_no(i):
        if i < len(fixed_cases): return fixed_cases[i]
        rng = random.Random(f"{prop.id}/{seed}/{i}")
        c = prop.gen(rng, tier, i - len(fixed_cases)); c.setdefault("seed", rng.getrandbits(48)); c["_i"] = i
        return c
    def absorb(case, res):
        stats["cases"] += 1
        for r in res["runs"]:
            stats["runs"] += 1; stats["steps"] += r["steps"]; stats["vtime"] += r["now"]; stats["dec"] += r["ndec"]
            stats["states"][r["state"]] = stats["states"].get(r["state"], 0) + 1
            for k, v in r["ctr"].items(): stats["ctr"][k] = stats["ctr"].get(k, 0) + v
            for f in r["faults"]: stats["faults"][f] = stats["faults"].get(f, 0) + 1
            key = (r["hash"], r["name"])
            stats["hashes"].add(key)
            if not r["benign"] and (r["ctr"].get("switches", 0) > 1 or r["ctr"].get("omp_permuted_regions") or r["ctr"].get("omp_preemptions") or r["faults"]): stats["nontrivial"].add(key)
        if res.get("harness"): harness.append((case, res["harness"]))
        for v in res["v"]:
            f = known(findings, case, v)
            if f: shown[f["what"]] = v
            else: failures.append((case, v))
        if len(samples) < 3 and not res["v"] and res["runs"]:
            samples.append({"case": {k: v for k, v in case.items() if k != "_i"}, "runs": [{k: r[k] for k in ("name", "nranks", "state", "steps", "ndec")} for r in res["runs"]]})
    inflight = 0
    det = None
    maxcases = int(os.environ.get("DST_MAXCASES", "0"))
    while True:
        stop = time.monotonic() > end or failures or len(harness) > 3 or (maxcases and nxt >= maxcases)
        must = nxt < len(fixed_cases) and not failures
        for w in pool.idle():
            if stop and not must: break
            pool.submit(w, {"case": case_no(nxt)}, nxt); nxt += 1; inflight += 1
            must = nxt < len(fixed_cases)
        if inflight == 0 and (stop and not must): break
        for tag, job, res in pool.poll():
            inflight -= 1; absorb(job["case"], res)
    t_search = time.monotonic() - t_search
    # determinism of the simulator itself: the same case on two different workers, and as a replay of its recorded decisions
    if not failures and not harness:
        ok = []
        for k in range(2):
            c = case_no(len(fixed_cases) + k)
            a, b = pool.map([{"case": c, "record": True}, {"case": c, "record": True}])
            if a.get("harness") or b.get("harness"): harness.append((c, a.get("harness") or b.get("harness"))); break
            p = pool.map([{"case": c, "replay": a["decs"]}])[0]
            same = [r["hash"] for r in a["runs"]] == [r["hash"] for r in b["runs"]] == [r["hash"] for r in p["runs"]]
            ok.append(same)
        det = bool(ok) and all(ok)
        if ok and not det: harness.append((c, "simulator is not deterministic: same seed gave different executions"))
    if warm_error and not failures: harness.append(({}, "warm-up failed: " + warm_error[-600:]))
    rc = 0; lines = []
    if failures:
        rc = 1
        bysig = {}
        for c, v in failures: bysig.setdefault(v["sig"], []).append((c, v))
        for sig, lst in list(bysig.items())[:3]:
            lst.sort(key=lambda cv: prop.size(cv[0]))
            c, v = lst[0]
            mb = prop.min_quick if tier == "quick" else prop.min_thorough
            try: mc, decs, res, n = minimise(pool, prop, c, sig, mb)
            except Exception: mc, decs, res, n = c, None, None, 0; print(f"not minimised: {traceback.format_exc(limit=3)}", file=sys.stderr)
            msg = next((x["msg"] for x in (res or {}).get("v", []) if x["sig"] == sig), v["msg"])
            path = write_replay(prop, mc, decs, sig, msg, res)
            lines.append(f"VIOLATION property={prop.id} replay={path}")
            print(f"{prop.id}: {sig}: {msg}")
            print(f"  case {json.dumps({k: x for k, x in mc.items() if k != '_i'})}")
            print(f"  {sum(1 for d in decs or [] for x in d if x)} non-benign decisions after {n} minimisation runs; seen in {len(lst)} case(s)")
    elif harness:
        rc = 2
        for c, h in harness[:3]: print("HARNESS ERROR:", h, json.dumps(c, default=str)[:600], file=sys.stderr)
    for f in findings:
        if f["what"] in shown: print(f"KNOWN-FINDING: property={prop.id} {f['what']}")
    for l in lines: print(l)
    wall = time.monotonic() - t0
    cov = {"evaluations": stats["runs"], "distinct_nontrivial": len(stats["nontrivial"]),
           "rule": prop.rule + " One evaluation is one simulated execution; it counts as distinct and non-trivial when its interleaving hash (the sequence of ranks, operations, deliveries and faults) was not seen before in this run and it had at least two baton switches, a permuted or preempted thread team, or an injected fault.",
           "samples": samples or [{"case": {k: v for k, v in failures[0][0].items() if k != "_i"}}] if (samples or failures) else [],
           "cases": stats["cases"], "distinct_interleavings": len(stats["hashes"]), "scheduler_steps": stats["steps"], "decisions": stats["dec"],
           "simulated_time_us": stats["vtime"], "runs_per_hour": int(stats["runs"] / max(t_search, 1e-6) * 3600), "cases_per_hour": int(stats["cases"] / max(t_search, 1e-6) * 3600),
           "final_states": stats["states"], "faults_injected": stats["faults"], "seam_counters": stats["ctr"], "search_s": round(t_search, 1), "warmup_s": round(t_warm, 1),
           "workers": W, "determinism_selftest": det, "real_components": prop.real, "stubbed_components": prop.stub, "known_findings_seen": sorted(shown)}
    ev = {"property": prop.id, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 1), "violations": len({v["sig"] for _, v in failures})}
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop.id}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    print(f"{prop.id} {tier}: {stats['cases']} cases, {stats['runs']} simulated runs, {len(stats['nontrivial'])} distinct non-trivial interleavings, "
          f"{stats['steps']} steps, warm {t_warm:.1f}s search {t_search:.1f}s total {wall:.1f}s -> {'ok' if rc == 0 else 'VIOLATED' if rc == 1 else 'HARNESS ERROR'}")
    return rc

class Prop:
    id = "P00"; level = "exploration"; quick_s = 25.0; thorough_s = 600.0; min_quick = 40.0; min_thorough = 240.0
    rule = ""; assumptions: list = []
    real = ["lambdapic Python (simulation loop, patches, MPI manager, load balancer, callbacks)", "all 16 lambdapic C extensions built from the current tree", "numba-compiled kernels", "mpi4py"]
    stub = ["MPI library (in-memory network of the simulator)", "OpenMP runtime (seeded coroutines)", "clock and entropy (virtual)"]
    tsan = False
    def warm(self): pass
    def corpus(self, tier): return []
    def gen(self, rng, tier, i): raise NotImplementedError
    def execute(self, case, ctx): raise NotImplementedError
    def shrink(self, case): return []
    def size(self, case): return len(json.dumps(case, default=str))
