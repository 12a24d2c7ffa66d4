"""ctypes face of libsim, and the run loop that forks the ranks of one simulated execution."""
from __future__ import annotations
import ctypes as C, os, pickle, shutil, signal, struct, sys, tempfile, time, traceback
from array import array
from pathlib import Path

L = C.CDLL(os.environ["DST_LIBSIM"])
for n, res in dict(sim_hash=C.c_uint64, sim_steps=C.c_uint64, sim_now=C.c_uint64, sim_ctr=C.c_uint64, sim_ops=C.c_uint64, sim_fops=C.c_uint64,
                   sim_note=C.c_char_p, sim_ndec=C.c_uint32, sim_dec=C.POINTER(C.c_uint16), sim_dkind=C.POINTER(C.c_uint8), sim_nlog=C.c_uint32,
                   sim_log=C.c_void_p, sim_race_count=C.c_uint64, sim_race_note=C.c_char_p, sim_live_reqs=C.c_long, sim_shm_size=C.c_size_t).items():
    getattr(L, n).restype = res
L.sim_reset.argtypes = [C.c_int, C.c_uint64, C.c_uint64, C.c_int, C.c_int, C.c_char_p]
L.sim_prob.argtypes = [C.c_int, C.c_double]
L.sim_fault.argtypes = [C.c_int, C.c_int, C.c_uint64, C.c_int64, C.c_int]
L.sim_replay.argtypes = [C.c_void_p, C.c_uint32]

STATES = ["idle", "running", "done", "deadlock", "aborted", "killed", "steplimit", "internal"]
KINDS = ["sched", "delay", "rdv", "lazy", "coll", "stall", "omp", "preempt", "ioshort", "killdelay"]
CTRS = ["switches", "msgs_delayed", "rendezvous_sends", "late_recv_copies", "stalls", "omp_permuted_regions", "omp_preemptions", "kills", "signals",
        "io_errors", "short_writes", "aborts", "messages", "reordered_deliveries", "early_collective_exits", "omp_regions", "file_ops", "races",
        "truncations", "collective_mismatches", "orphans", "uncompleted", "clock_jumps", "tag_errors"]
OPS = ["send", "recv", "wait", "barrier", "bcast", "gather", "scatter", "allgather", "reduce", "allreduce", "dup", "probe", "abort", "file", "user",
       "exit", "kill", "signal", "iofault", "switch", "stall", "test", "match", "omp", "preempt", "race", "alltoall"]
FAULTS = {"kill": 0, "signal": 1, "ioerr": 2, "ioshort": 3, "clock": 4, "stall": 5}

class RankResult:
    __slots__ = ("rank", "value", "error", "exit", "races", "race_note", "live")
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))

class Outcome:
    """What one simulated execution did."""
    def __init__(self): self.ranks = []
    state: str; note: str; hash: int; steps: int; now: int; ctr: dict; ndec: int; orphans: int
    def ok(self): return self.state == "done" and all(r.error is None for r in self.ranks)
    def values(self): return [r.value for r in self.ranks]
    def errors(self): return [(r.rank, r.error) for r in self.ranks if r.error]

SCRATCH = Path(os.environ.get("DST_SCRATCH", "/dev/shm"))

def run(program, nranks: int, *, seed: int = 0, sched: dict | None = None, faults: list | None = None, omp: int = 1, tsan: int = 0,
        root: str | None = None, maxsteps: int = 3_000_000, replay: list | None = None, wall: float = 120.0, tag_ub: int | None = None,
        args: tuple = (), keep_log: bool = False) -> Outcome:
    """Forks nranks ranks that execute program(rank, *args) under the simulator."""
    sched = sched or {}
    L.sim_init()
    L.sim_reset(nranks, seed & (2**64 - 1), maxsteps, omp, tsan, root.encode() if root else None)
    for i, k in enumerate(KINDS):
        L.sim_prob(i, float(sched.get(k, 0.0)))
    L.sim_delaymax(int(sched.get("delaymax", 1)))
    if tag_ub: L.sim_tagub(tag_ub)
    for f in faults or []:
        L.sim_fault(FAULTS[f["kind"]], int(f["rank"]), int(f["at"]), int(f.get("arg", 0)), 1 if f.get("on") == "file" else 0)
    if replay is not None:
        a = array("H", replay); buf = a.tobytes()
        L.sim_replay(buf, len(a))
    tmp = tempfile.mkdtemp(prefix="dstres", dir=SCRATCH)
    pids = {}
    sys.stdout.flush(); sys.stderr.flush()
    try:
        for r in range(nranks):
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    _child(program, r, args, tmp)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = r
        out = Outcome()
        out.crashed = []; out.walltimeout = False
        deadline = time.monotonic() + wall
        left = dict(pids)
        while left:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.monotonic() > deadline:
                    out.walltimeout = True
                    for p in left: os.kill(p, signal.SIGKILL)
                    for p in list(left): os.waitpid(p, 0)
                    break
                time.sleep(0.0005)
                continue
            if pid not in left: continue
            r = left.pop(pid)
            rs = L.sim_rank_state(r)
            if rs == 1:   # died while holding R_RUN: real crash (signal, os._exit, ...)
                out.crashed.append((r, os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)))
                for p in left: os.kill(p, signal.SIGKILL)
                for p in list(left): os.waitpid(p, 0)
                left = {}
        out.state = STATES[L.sim_state()]
        if out.crashed: out.state = "crashed"
        if out.walltimeout: out.state = "hang"
        out.note = L.sim_note().decode(errors="replace")
        out.hash = L.sim_hash(); out.steps = L.sim_steps(); out.now = L.sim_now(); out.ndec = L.sim_ndec()
        out.ctr = {k: L.sim_ctr(i) for i, k in enumerate(CTRS)}
        out.orphans = L.sim_orphans()
        out.abort_rank, out.abort_code = L.sim_abort_rank(), L.sim_abort_code()
        out.fired = [L.sim_fault_fired(i) for i in range(len(faults or []))]
        out.ops = [L.sim_ops(r) for r in range(nranks)]; out.fops = [L.sim_fops(r) for r in range(nranks)]
        out.blocked = [(r, OPS[L.sim_rank_why(r, 1)] if 0 <= L.sim_rank_why(r, 1) < len(OPS) else "?", [L.sim_rank_why(r, k) for k in (2, 3, 4)]) for r in range(nranks) if L.sim_rank_why(r, 0)]
        out.rstate = [L.sim_rank_state(r) for r in range(nranks)]
        out.dec = None
        for r in range(nranks):
            p = Path(tmp) / f"r{r}"
            if p.exists() and not (Path(tmp) / f"r{r}.part").exists():
                try:
                    out.ranks.append(pickle.loads(p.read_bytes()))
                except Exception as e:
                    out.ranks.append(RankResult(rank=r, error=f"unreadable result {e!r}"))
            else:
                out.ranks.append(RankResult(rank=r, value=None, error=None, exit=L.sim_exit_code(r)))
        if keep_log: out.log = get_log()
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decisions() -> list:
    n = L.sim_ndec()
    return list(L.sim_dec()[:n]) if n else []
def decision_kinds() -> list:
    n = L.sim_ndec()
    return list(L.sim_dkind()[:n]) if n else []
def get_log(maxn: int = 100000) -> list:
    n = min(L.sim_nlog(), maxn)
    raw = C.string_at(L.sim_log(), n * 24)
    return [(now, r, OPS[op] if op < len(OPS) else op, a, b, c) for now, r, op, a, b, c in struct.iter_unpack("<Qhhiii", raw)]

def _child(program, rank, args, tmp):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    if os.environ.get("DST_DEBUG") is None:
        dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1)
        if os.environ.get("DST_STDERR") is None: os.dup2(dn, 2)
    val = err = None
    L.sim_attach(rank)
    try:
        val = program(rank, *args)
    except SystemExit as e:
        err = f"SystemExit({e.code})"
    except BaseException as e:
        err = "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + " < ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
        if os.environ.get("DST_DEBUG"): traceback.print_exc()
    res = RankResult(rank=rank, value=val, error=err, races=L.sim_race_count(), race_note=L.sim_race_note().decode(), live=L.sim_live_reqs())
    with open(os.path.join(tmp, f"r{rank}.part"), "wb") as f: pickle.dump(res, f, protocol=5)
    os.rename(os.path.join(tmp, f"r{rank}.part"), os.path.join(tmp, f"r{rank}"))
    L.sim_finish(0)
    os._exit(0)
