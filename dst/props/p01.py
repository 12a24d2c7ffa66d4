"""P01 guard-cell exchange: every guard cell equals the interior cell it mirrors, whatever the partition and message timing."""
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations

SENT = -7.25e200
ATTRSETS = [["ex", "ey", "ez"], ["bx", "by", "bz"], ["ex", "ey", "ez", "bx", "by", "bz"], ["ex"], ["jx", "rho"], ["bz", "ey"]]

def value(attr, gi, shape, rnd, seed):
    """A value that names the field, the global cell and the round exactly (integers below 2^53)."""
    lin = gi[0]
    for i in range(1, len(gi)): lin = lin * shape[i] + gi[i]
    return (scen.FIELDS.index(attr) + 1) * 1.0e9 + rnd * 1.0e7 + lin.astype(float) + (seed % 97) * 1e11

def grids(p, cfg, ng):
    """Global cell index of every array element of a patch (guards included), per axis."""
    dim = cfg["dim"]; c = (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0)); out = []
    for i in range(dim):
        n = cfg["nc"][i]; l = np.arange(n + 2 * ng); l[-ng:] = np.arange(-ng, 0); out.append(c[i] * n + l)
    return out

def program(rank, cfg):
    """The case's simulation, then (in the same process) the further geometries it draws, then the first one again."""
    bad = rounds(scen.build(cfg), cfg)
    more = [dict(cfg, **t) for t in cfg.get("then", [])]
    sims = [(scen.build(c), c) for c in more]
    for s, c in sims: bad = bad or rounds(s, c)
    if more: bad = bad or rounds(*sims[0])
    return bad[:20]

def rounds(sim, cfg):
    ng = sim.n_guard; dim = cfg["dim"]; shape = [cfg["np"][i] * cfg["nc"][i] for i in range(dim)]
    present = {pp for pp in cfg.get("mask", [])}
    bad = []
    plan = [(r, ATTRSETS[k]) for r, k in enumerate(cfg["sets"])]
    def fill(rnd, attrs):
        for p in sim.patches:
            g = np.meshgrid(*grids(p, cfg, ng), indexing="ij"); interior = np.ones(g[0].shape, bool)
            for i in range(dim):
                n = cfg["nc"][i]; sl = [slice(None)] * dim; sl[i] = slice(n, None); interior[tuple(sl)] = False
            for a in attrs:
                arr = getattr(p.fields, a)
                arr[...] = np.where(interior, value(a, g, shape, rnd, cfg["vseed"]), SENT - rnd)
    def check(rnd, attrs):
        for p in sim.patches:
            ax = grids(p, cfg, ng); ok = np.ones([len(x) for x in ax], bool); w = []
            for i in range(dim):
                x = ax[i]; inside = (x >= 0) & (x < shape[i])
                if cfg["bc"][i] != "p": ok &= inside.reshape([-1 if q == i else 1 for q in range(dim)])
                w.append(x % shape[i])
            g = np.meshgrid(*w, indexing="ij")
            for a in attrs:
                want = np.where(ok, value(a, g, shape, rnd, cfg["vseed"]), SENT - rnd)
                got = getattr(p.fields, a)
                if not np.array_equal(want, got):
                    q = tuple(int(v[0]) for v in np.nonzero(want != got))
                    n = int((want != got).sum())
                    bad.append((rnd, a, p.index, q, float(want[q]), float(got[q]), n))
    if cfg["mode"] == "split":   # as the step loop does it: start, local exchange, wait, no barrier between rounds
        for rnd, attrs in plan:
            fill(rnd, attrs)
            h = sim.mpi.sync_guard_fields_start(list(attrs)); sim.patches.sync_guard_fields(list(attrs)); sim.mpi.sync_guard_fields_wait(h)
            check(rnd, attrs)
    else:
        for rnd, attrs in plan:
            fill(rnd, attrs)
            sim.patches.sync_guard_fields(list(attrs)); sim.mpi.sync_guard_fields(list(attrs))
            check(rnd, attrs)
    return bad

class P01(Prop):
    id = "P01"
    rule = "A case draws a 2D/3D patch grid, boundary types, a partition of patches over 2-5 ranks, guard width, a sequence of field sets, optionally further simulations of another geometry in the same process, and schedule intensities; ranks run rounds of guard exchange without barriers."
    assumptions = ["Patches are at least as wide as the guard layer plus one cell, as the automatic patch choice guarantees.", "Every rank owns at least one patch (documented requirement)."]
    def warm(self): scen.warm_light()
    def gen(self, rng, tier, i):
        c = scen.gen_grid(rng)
        c["bc"] = "".join(rng.choice("ppo") for _ in range(c["dim"]))
        c["ng"] = rng.choice([2, 3, 3, 3, 4]); c["nc"] = [max(n, c["ng"] + 1) for n in c["nc"]]
        scen.fix_grid(c)
        c["part"] = rng.choice(["random", "random", "metis", "skew", "roundrobin"]); c["pseed"] = rng.randrange(1000)
        c["sets"] = [rng.randrange(len(ATTRSETS)) for _ in range(rng.randint(2, 5))]; c["vseed"] = rng.randrange(97)
        c["mode"] = rng.choice(["split", "split", "plain"]); c["omp"] = rng.choice([1, 1, 3])
        c["sched"] = scen.gen_sched(rng)
        if rng.random() < 0.35:   # other simulations in the same process: one dimension differs, the rest as before
            c["then"] = []
            for _ in range(rng.randint(1, 2)):
                k = rng.randrange(c["dim"] + 1); t = dict(vseed=rng.randrange(97))
                if k < c["dim"]: t["nc"] = [n + (rng.randint(1, 3) if q == k else 0) for q, n in enumerate(c["nc"])]
                elif min(c["nc"]) > 4: t["ng"] = 5 - c["ng"] if c["ng"] < 4 else 3
                if t.get("ng", c["ng"]) >= min(t.get("nc", c["nc"])): t.pop("ng")
                c["then"].append(t)
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="guard exchange")
        if v: return v
        for r, bad in enumerate(o.values()):
            if bad:
                rnd, a, idx, q, w, g, n = bad[0]
                kind = "unsynced" if g <= SENT + 1000 and g > SENT - 1000 else "stale-or-wrong"
                return [V(f"guard:{kind}", f"round {rnd} field {a} patch {idx} on rank {r}: cell {q} is {g}, mirrored interior cell holds {w} ({n} cells differ in this array)")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) were sent but never received")]
        return []
    def shrink(self, c):
        if c.get("then"):
            yield {k: v for k, v in c.items() if k != "then"}
            if len(c["then"]) > 1: yield dict(c, then=c["then"][:1]); yield dict(c, then=c["then"][1:])
        for d in scen.shrink_grid(c): yield d
PROP = P01()
