"""P25 logs: what any rank logs is in the shared log files once and whole, and logging never changes the run."""
import os, pickle, re
from .. import scen, mix
from ..core import Prop, V, outcome_violations

ORDER = dict(TRACE=5, DEBUG=10, INFO=20, TIMER=22, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50)
LINE = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} \| (\w+) *\| (.*)$")
OLD = "left by an earlier program, rank 0\n"

def tap(fd):
    """Notes every record before and after the library's logger has dealt with it, whatever its sinks are."""
    from loguru._logger import Logger
    if hasattr(Logger, "_dst_log"): Logger._log = Logger._dst_log
    Logger._dst_log = real = Logger._log
    def _log(self, level, from_decorator, options, message, args, kwargs):
        m = message.format(*args, **kwargs) if args or kwargs else message
        line = pickle.dumps((str(level), str(m))).hex()
        os.write(fd, f"b {line}\n".encode())
        try: return real(self, level, from_decorator, options, message, args, kwargs)
        finally: os.write(fd, b"e\n")
    Logger._log = _log

def program(rank, cfg, log, side, part):
    from loguru import logger
    from lambdapic import callback
    fd = os.open(os.path.join(side, f"{part}.{rank}"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if cfg["level"]: os.environ["LAMBDAPIC_LOG_LEVEL"] = cfg["level"]
    else: os.environ.pop("LAMBDAPIC_LOG_LEVEL", None)
    tap(fd); states = []
    for g in range(cfg["gens"]):
        os.write(fd, b"gen\n")
        sim = scen.build(cfg, add=lambda *_: os.write(fd, b"made\n"), **(dict(log_file=log, truncate_log=cfg["trunc"], enable_timer=cfg["timer"]) if log else {}))
        cbs = []
        for k, u in enumerate(cfg["user"]):
            def mk(k=k, u=u):
                @callback(stage=u["stage"], interval=u["iv"])
                def say(s):
                    if u["rank"] is None or rank == u["rank"]: logger.log(u["lvl"], f"user {part}.{g}.{k} on {rank} at {s.itime}/{getattr(s, 'ispec', None)} " + "x" * u["len"])
                return say
            cbs.append(mk())
        sim.run(nsteps=cfg["steps"], callbacks=cbs)
        states.append(scen.observe(sim))
    os.write(fd, b"done\n")
    return states

class Gen(list):
    early = 10**9   # how many records were logged inside the constructor

def built(side, part, n):
    """Per rank: the generations of its records as (level, text, certain) lists; records logged before construction ended may be early."""
    out = []
    for r in range(n):
        gens = []
        p = os.path.join(side, f"{part}.{r}")
        for ln in (open(p).read().splitlines() if os.path.exists(p) else []):
            if ln == "gen": gens.append(Gen())
            elif ln == "made": gens[-1].early = len(gens[-1])
            elif ln.startswith("b "):
                lv, m = pickle.loads(bytes.fromhex(ln[2:])); gens[-1].append([lv, m, False])
            elif ln == "e": gens[-1][-1][2] = True
        out.append(gens)
    return out

class P25(Prop):
    id = "P25"; quick_s = 18.0
    stub = Prop.stub + ["file system calls on the log files (real files in a scratch directory; every operation is a scheduling point and may fail)"]
    rule = "A case draws a simulation on 1-5 ranks that write one log file, with or without timers, emptied or appended to, at a random level, with records of random levels from callbacks at random stages on some or all ranks; up to two programs in a row, one or two simulations in each, a rank killed at a random operation, a full disk or a one-off error on one rank's log from a random operation on; the files are compared with what the loggers were given and the final state with that of the run that writes no log."
    assumptions = ["Appends of one line by different processes are atomic (POSIX local file system).", "What is logged before the constructor returns may go to the file of the previous program.", "Lines of a rank whose own writes fail may be lost."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 3), nmax=30)
        c["cbs"] = False; c["lb"] = rng.choice([None, None, 1e-6])
        if rng.random() < 0.1: c["nranks"] = 1
        c.update(trunc=rng.random() < 0.6, timer=rng.random() < 0.5, gens=rng.choice([1, 1, 2]), level=rng.choice(["", "", "DEBUG", "trace", "WARNING", "nonsense"]), old=rng.random() < 0.5, oldtimer=rng.random() < 0.5)
        c["user"] = [dict(stage=rng.choice(mix.STAGES), iv=rng.choice([1, 1, 2]), lvl=rng.choice(["TRACE", "DEBUG", "INFO", "INFO", "SUCCESS", "WARNING", "ERROR"]), rank=rng.choice([None, None, rng.randrange(c["nranks"])]), len=rng.choice([0, 0, 10, 3000])) for _ in range(rng.randint(1, 3))]
        c["fault"] = rng.choice([None, None, None, dict(kind="kill", rank=rng.randrange(c["nranks"]), at=rng.randint(5, 120)), dict(kind="ioerr", rank=rng.randrange(c["nranks"]), at=rng.randint(14, 60), arg=rng.choice([28, 5]), on="file"), dict(kind="clock", rank=rng.randrange(c["nranks"]), at=rng.randint(1, 80), arg=rng.choice([-3600 * 10**6, 10**6]))])
        if c["fault"] and c["fault"]["kind"] == "ioerr": c["gens"] = 1   # a second simulation could not open its log at all
        c["again"] = rng.random() < 0.3
        return c
    def execute(self, c, ctx):
        d = ctx.dir(); root = os.path.join(d, "log"); side = os.path.join(d, "side"); os.mkdir(root); os.mkdir(side)
        log = os.path.join(root, "run.log"); tlog = os.path.join(root, "run.timer.log")
        for p, k in ((log, "old"), (tlog, "oldtimer")):
            if c[k]: open(p, "w").write(OLD)
        before = {p: open(p).read() if os.path.exists(p) else "" for p in (log, tlog)}
        f = c["fault"]; n = c["nranks"]; state = None
        for part in range(2 if c["again"] else 1):
            faults = [f] if f and part == 0 else None
            o = ctx.run(program, n, args=(c, log, side, part), root=root, faults=faults, name=f"program {part}")
            fired = bool(faults) and bool(o.fired[0])
            killed = fired and f["kind"] == "kill"
            if not killed:
                v = outcome_violations(o, what="run with a log file")
                if v: return v
                state = o.values()
            sick = f["rank"] if fired and f["kind"] == "ioerr" else None
            v = self.check(c, before, built(side, part, n), log, tlog, sick, killed)
            if v: return [v]
            for p in (log, tlog):
                if os.path.exists(p): open(p, "a").write("\n" * (not open(p).read().endswith("\n")) + OLD)
            before = {p: open(p).read() if os.path.exists(p) else "" for p in (log, tlog)}
        if state:
            o = ctx.run(program, n, args=(c, None, side, 9), name="without a log")
            v = outcome_violations(o, what="run without a log file")
            if v: return v
            for g in range(c["gens"]):
                a, b = (scen.merge([x[g] for x in y])[0] for y in (o.values(), state))
                v = scen.compare_states(c, a, b, 1e-9, "runs with and without a log file", sig="passive")
                if v: return [v]
        return []
    def check(self, c, before, ranks, log, tlog, sick, killed):
        lvl = ORDER.get(c["level"].upper(), 20)
        for path, what, mine in ((log, "log", lambda l: l != "TIMER" and ORDER[l] >= lvl), (tlog, "timer log", lambda l: l == "TIMER" and c["timer"])):
            text = open(path).read() if os.path.exists(path) else None
            if path == tlog and not c["timer"]:
                if (text or "") != before[path]: return V("timer-off", f"{what} changed though timers are off")
                continue
            if text is None:
                if killed: continue
                return V("missing", f"there is no {what}")
            torn = sick is not None or killed   # the line being written when the disk failed or the rank died
            done = bool(ranks[0]) and ranks[0][0].early < 10**9
            if not c["trunc"]:
                if not text.startswith(before[path]): return V("history", f"{what} no longer starts with what was in it before, though it is appended to")
                text = text[len(before[path]):]
            elif OLD in text and done: return V("old", f"{what} still holds what an earlier program left in it")
            if text and not text.endswith("\n") and not torn: return V("torn", f"{what} ends with {text[-60:]!r}")
            have = {}; seq = []
            for ln in text.splitlines():
                if ln + "\n" in OLD or (before[path] and ln + "\n" in before[path] and c["trunc"] and not done): continue
                m = LINE.match(ln)
                if not m:
                    if torn: continue
                    return V("torn", f"{what} holds the line {ln[:160]!r}")
                k = (m[1], m[2].rstrip()); have[k] = have.get(k, 0) + 1; seq.append(k)
            need, may = {}, {}
            uniq = {}
            for r, gens in enumerate(ranks):
                for g, recs in enumerate(gens):
                    for q, (l, m, sure) in enumerate(recs):
                        if not mine(l): continue
                        k = (l, m.rstrip()); may[k] = may.get(k, 0) + 1; uniq.setdefault(k, []).append((r, g, q))
                        # of an emptied file only the last simulation's records are certain to be there
                        last = not c["trunc"] or g == max(len(x) for x in ranks) - 1
                        if sure and q >= recs.early and last and r != sick: need[k] = need.get(k, 0) + 1
            for k, w in sorted(need.items()):
                if have.get(k, 0) < w: return V("lost" if path == log else "lost-timer", f"rank {sorted({r for r, _, _ in uniq[k]})} logged {k[0]} {k[1][:120]!r} {w} time(s); {what} holds it {have.get(k, 0)} time(s)")
            for k, w in sorted(have.items()):
                if w > may.get(k, 0): return V("extra", f"{what} holds {k[0]} {k[1][:120]!r} {w} time(s); it was logged {may.get(k, 0)} time(s)" + (" (file level)" if k[0] in ORDER and not mine(k[0]) else ""))
            pos = {}
            for k in seq:
                if len(uniq[k]) != 1: continue
                r, g, q = uniq[k][0]
                if pos.get(r, (-1, -1)) > (g, q) and r != sick: return V("order", f"{what}: rank {r}'s {k[1][:100]!r} comes before what it logged earlier")
                pos[r] = (g, q)
            if path == tlog and not torn and not before[path]:
                from lambdapic.cli.stat import parse_log_file, calculate_percentages
                times, counts = parse_log_file(path); t0, n0 = {}, {}
                for (l, m), w in have.items():
                    x = re.match(r"Rank (\d+) (.*) took ([\d.]+)ms$", m)
                    if x: t0[x[2]] = t0.get(x[2], 0.0) + w * float(x[3]); n0[x[2]] = n0.get(x[2], 0) + w
                    if x and not {int(x[1])} <= {r for r, _, _ in uniq[(l, m)]}: return V("timer-rank", f"{m!r} was logged by rank {uniq[(l, m)]}")
                if dict(counts) != n0 or any(abs(times[k] - t0[k]) > 1e-6 * max(1.0, t0[k]) for k in t0): return V("timer-sum", f"timer-stat counts {dict(counts)}, the ranks logged {n0}; times {dict(times)}, {t0}")
                pc, av, tot = calculate_percentages(times, counts)
                if abs(tot - sum(t0.values())) > 1e-6 * max(1.0, tot) or any(abs(av[k] - t0[k] / n0[k]) > 1e-6 * max(1.0, av[k]) for k in t0) or tot > 0 and abs(sum(pc.values()) - 100) > 1e-6: return V("timer-stat", f"total {tot}, averages {av}, percentages {pc} from {t0} in {n0}")
        return None
    def shrink(self, c):
        if c["fault"]: yield dict(c, fault=None)
        if c["again"]: yield dict(c, again=False)
        if c["gens"] > 1: yield dict(c, gens=1)
        if c["timer"]: yield dict(c, timer=False)
        if c["lb"] is not None: yield dict(c, lb=None)
        for k in range(len(c["user"])): yield dict(c, user=c["user"][:k] + c["user"][k + 1:])
        if c["level"]: yield dict(c, level="")
        for k in ("old", "oldtimer"):
            if c[k]: yield dict(c, **{k: False})
        yield from scen.shrink_grid(c)
PROP = P25()
