"""P02 current synchronisation: every deposited contribution reaches its owning cell exactly once."""
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations
from .p01 import grids

ATTRS = ("jx", "jy", "jz", "rho")

def deposit(cfg, pidx, a, rnd, shape):
    """What patch `pidx` deposited: integers, so that sums are exact in any order."""
    return np.random.default_rng([cfg["vseed"], pidx, ATTRS.index(a), rnd]).integers(-1000, 1000, shape).astype(float)

class _P:  # a patch's coordinates, for patches this rank does not own
    def __init__(self, cfg, idx):
        np_ = cfg["np"]; self.ipatch_x = idx % np_[0]; self.ipatch_y = idx // np_[0] % np_[1]; self.ipatch_z = idx // (np_[0] * np_[1])

def model(cfg, a, rnd, ng):
    """The global array that results when each contribution is added to its owner (reference model)."""
    dim = cfg["dim"]; shape = [cfg["np"][i] * cfg["nc"][i] for i in range(dim)]
    g = np.zeros(shape)
    for idx in range(int(np.prod(cfg["np"]))):
        ax = grids(_P(cfg, idx), cfg, ng)
        vals = deposit(cfg, idx, a, rnd, [len(x) for x in ax])
        keep, wrapped = [], []
        for i in range(dim):
            k = np.ones(len(ax[i]), bool) if cfg["bc"][i] == "p" else (ax[i] >= 0) & (ax[i] < shape[i])
            keep.append(np.nonzero(k)[0]); wrapped.append(ax[i][k] % shape[i])
        np.add.at(g, np.ix_(*wrapped), vals[np.ix_(*keep)])
    return g

def program(rank, cfg):
    sim = scen.build(cfg)
    ng = sim.n_guard; dim = cfg["dim"]; bad = []
    for rnd in range(cfg["rounds"]):
        for p in sim.patches:
            for a in ATTRS:
                arr = getattr(p.fields, a); arr[...] = deposit(cfg, p.index, a, rnd, arr.shape)
        sim.current_synced = False
        if cfg["mode"] == "split":     # as the step loop overlaps it: other exchanges run while the current exchange is in flight
            sim.sync_currents_start()
            if cfg["overlap"]:
                hs = [sim.mpi.sync_particles_start(i) for i in range(len(sim.patches.species))]
                for h in hs: sim.mpi.sync_particles_wait(h)
            if cfg["twice"]: sim.sync_currents_start()
            sim.sync_currents_wait()
        else:
            sim.sync_currents()
        if cfg["twice"]: sim.sync_currents()    # already synced: must change nothing
        for a in ATTRS:
            g = model(cfg, a, rnd, ng)
            for p in sim.patches:
                gs, ls = scen.patch_slices(p, dim)
                got = getattr(p.fields, a)[ls]
                if not np.array_equal(got, g[gs]):
                    q = tuple(int(v[0]) for v in np.nonzero(got != g[gs]))
                    bad.append((rnd, a, p.index, q, float(g[gs][q]), float(got[q]), int((got != g[gs]).sum()), float(got.sum() - g[gs].sum())))
    return bad[:20]

class P02(Prop):
    id = "P02"
    rule = "A case draws a 2D/3D patch grid, boundary types, a partition over 1-5 ranks, guard width and schedule intensities; every cell of every patch (guards included) receives seeded integer deposits, and several sync rounds run back to back, optionally overlapped with particle exchange."
    assumptions = ["Patches are at least as wide as the guard layer plus one cell.", "Every rank owns at least one patch (documented requirement)."]
    def warm(self): scen.warm_light()
    def gen(self, rng, tier, i):
        c = scen.gen_grid(rng)
        if rng.random() < 0.1: c["nranks"] = 1
        c["bc"] = "".join(rng.choice("ppo") for _ in range(c["dim"]))
        c["ng"] = rng.choice([2, 3, 3, 3, 4]); c["nc"] = [max(n, c["ng"] + 1) for n in c["nc"]]
        scen.fix_grid(c)
        c["part"] = rng.choice(["random", "random", "metis", "skew", "roundrobin"]); c["pseed"] = rng.randrange(1000)
        c["rounds"] = rng.randint(1, 4); c["vseed"] = rng.randrange(10**6)
        c["mode"] = rng.choice(["split", "split", "plain"]); c["omp"] = rng.choice([1, 1, 3]); c["twice"] = rng.random() < 0.3; c["overlap"] = rng.random() < 0.5
        c["species"] = [dict(kind="electron", n=rng.choice([0, 10, 60]))] if rng.random() < 0.6 else []
        c["sched"] = scen.gen_sched(rng)
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="current sync")
        if v: return v
        for r, bad in enumerate(o.values()):
            if bad:
                rnd, a, idx, q, w, g, n, tot = bad[0]
                return [V(f"current:{'lost-or-duplicated' if tot else 'misplaced'}", f"round {rnd} {a} patch {idx} on rank {r}: cell {q} holds {g}, the deposits owned by it sum to {w} ({n} cells differ, patch total off by {tot})")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) were sent but never received")]
        return []
    def shrink(self, c):
        if c["rounds"] > 1: yield dict(c, rounds=1); yield dict(c, rounds=c["rounds"] - 1)
        if c["twice"]: yield dict(c, twice=False)
        if c["overlap"]: yield dict(c, overlap=False)
        yield from scen.shrink_grid(c)
PROP = P02()
