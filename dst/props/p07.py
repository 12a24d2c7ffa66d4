"""P07 load balancing: moving patches between ranks changes which rank computes them and nothing else."""
import hashlib
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations

PLACEMENT = {"neighbor_rank", "neighbor_ipatch", "rank"}   # where a patch lives, the only thing a move may change

def deep(o, h, name="", depth=0, seen=None):
    """Hashes every number reachable from a patch, whatever its attributes are called."""
    seen = seen or set()
    if name in PLACEMENT or depth > 6: return
    if isinstance(o, np.ndarray): h.update(f"{name}{o.shape}{o.dtype}".encode()); h.update(np.ascontiguousarray(o).tobytes()); return
    if isinstance(o, (int, float, bool, str, np.number)): h.update(f"{name}={o!r}".encode()); return
    if isinstance(o, dict): items = sorted(((str(k), v) for k, v in o.items()), key=lambda t: t[0])
    elif isinstance(o, (list, tuple)): items = [(f"{name}[{i}]", v) for i, v in enumerate(o)]
    elif hasattr(o, "__dict__") and type(o).__module__.startswith("lambdapic"): items = sorted(vars(o).items())
    else: return
    if id(o) in seen: return
    for k, v in items: deep(v, h, k, depth + 1, seen | {id(o)})

def patch_digest(p):
    h = hashlib.blake2b(digest_size=12); deep(p, h); return h.hexdigest()

def seed_pml(sim, cfg):
    """Every auxiliary array of an absorbing layer gets a value of its own, so that a lost one shows."""
    for p in sim.patches:
        for k, b in enumerate(p.pml_boundary):
            for a, v in sorted(vars(b).items()):
                if isinstance(v, np.ndarray) and v.dtype == float and a.startswith("psi"):
                    v[...] = np.random.default_rng([cfg["popseed"], p.index, k, len(a), ord(a[-1])]).normal(0, cfg["e0"] * 1e-3, v.shape)

def loads(cfg):
    if not cfg.get("skew"): return None
    return lambda patch: 1.0 + (5000.0 if (patch.index * 2654435761 + cfg["pseed"]) % 7 < 2 else 0.0)

def program(rank, cfg):
    sim = scen.build(cfg)
    if cfg["e0"] and not cfg["plainpml"]: seed_pml(sim, cfg)
    if loads(cfg): sim.load_balancer.load_function = loads(cfg)
    snaps = []; moves = [0]
    real = sim.load_balancer.__call__
    def snap(): return {p.index: (patch_digest(p), p.rank) for p in sim.patches}
    for step in range(cfg["steps"]):
        sim.run(nsteps=1, callbacks=scen.pusher_stage_cbs(cfg, []))
        if cfg["direct"]:
            sim.load_balancer.update_weights()
            a = snap(); sim.load_balancer(); sim.update_patches(); b = snap()
            snaps.append((a, b))
        else:
            snaps.append((None, snap()))
    return dict(snaps=snaps, state=scen.observe(sim, fields=("ex", "ey", "ez", "bx", "by", "bz", "rho")), pml=None)

class P07(Prop):
    id = "P07"
    rule = "A case draws a simulation on 2-5 ranks; after every step (or whenever the balancer's own threshold triggers) the patches are redistributed to a random, skewed, METIS or round-robin assignment; the contents of every patch are hashed before and after, and the run is compared with a single-rank run that never rebalances."
    assumptions = ["Comparison with the single-rank run uses a relative tolerance of 1e-9.", "The graph partitioner is either the real METIS or a stand-in that returns any assignment without empty ranks."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 4))
        scen.add_mask(rng, c)
        c["direct"] = rng.random() < 0.6; c["plainpml"] = rng.random() < 0.3
        c["lb"] = None if c["direct"] else rng.choice([1e-6, 0.1, 0.5])
        c["part"] = rng.choice(["random", "random", "metis", "metis", "skew", "roundrobin", "contiguous"]); c["skew"] = rng.random() < 0.4
        if c["nranks"] < 2: c["nranks"] = 2
        if rng.random() < 0.12:   # arrays large enough that unpickling does not copy them
            for sp in c["species"]: sp["n"] = 2500
        return c
    def execute(self, c, ctx):
        one = dict(c, nranks=1, lb=None, direct=False)
        a = ctx.run(program, 1, args=(one,), benign=True, name="reference", omp=1)
        v = outcome_violations(a, what="single rank")
        if v: return v
        o = ctx.run(program, c["nranks"], args=(c,), name="rebalanced")
        v = outcome_violations(o, what="run with rebalancing")
        if v: return v
        n = int(np.prod(c["np"])) - len(c.get("mask", [])); moved = 0
        for k in range(c["steps"]):
            for which in (0, 1):
                all_ = {}
                for r, val in enumerate(o.values()):
                    s = val["snaps"][k][which]
                    if s is None: continue
                    if not s: return [V("empty-rank", f"step {k}: rank {r} is left without patches ({n} patches, {c['nranks']} ranks)")]
                    for idx, (d, pr) in s.items():
                        if idx in all_: return [V("patch-duplicated", f"step {k}: patch {idx} is on ranks {all_[idx][1]} and {r}")]
                        if pr != r: return [V("rank-record", f"step {k}: patch {idx} on rank {r} says it is on {pr}")]
                        all_[idx] = (d, r)
                if all_ and set(all_) != set(range(n)): return [V("patch-lost", f"step {k}: patches {sorted(set(range(n)) - set(all_))} are on no rank")]
                if which == 0: before = all_
            if before:
                for idx in range(n):
                    moved += before[idx][1] != all_[idx][1]
                    if before[idx][0] != all_[idx][0]: return [V("patch-changed", f"step {k}: the contents of patch {idx} changed when it {'moved from rank %d to %d' % (before[idx][1], all_[idx][1]) if before[idx][1] != all_[idx][1] else 'stayed'}")]
        sa, _ = scen.merge([r["state"] for r in a.values()]); sb, _ = scen.merge([r["state"] for r in o.values()])
        e = scen.compare_states(c, sa, sb, 1e-9, f"rebalanced run vs single rank after {c['steps']} steps", fields=("ex", "ey", "ez", "bx", "by", "bz"))
        if e: return [e]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        return []
    def shrink(self, c):
        if c["skew"]: yield dict(c, skew=False)
        if c["cbs"]: yield dict(c, cbs=False)
        yield from scen.shrink_grid(c)
PROP = P07()
