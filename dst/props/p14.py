"""P14 particle ids: unique among all particles of a species over the whole history, and each particle keeps its id for life."""
import os
import numpy as np
from .. import scen, qed, mix
from ..core import Prop, V, outcome_violations

def snap(sim):
    P = ["x", "y", "z"][:sim.dimension]
    return [{a: v for a, v in g.items()} for g in qed.particles(sim, extra=(), attrs=["_id", "w"] + P)]

def program(rank, cfg, root):
    from lambdapic import callback
    q = "nseed" in cfg
    sim = qed.build(cfg, rank) if q else scen.build(cfg)
    hist = [snap(sim)]
    @callback(stage="end")
    def rec(s): hist.append(snap(s))
    log = []
    cbs = ([qed.haste(cfg)] if q else []) + mix.make(sim, cfg, cfg["feats"], root, {}) + [rec] + scen.pusher_stage_cbs(cfg, log)
    if cfg.get("prune"):
        @callback(stage="start", interval=2)
        def prune(s):
            for p in s.patches:
                for part in p.particles: part.prune(0.1)
            s.update_patches()
        cbs.append(prune)
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return hist

def resumed(rank, cfg, root):
    """The same job continued from its last checkpoint."""
    from lambdapic import callback
    from lambdapic.callback.restart import RestartDump
    d = os.path.join(root, "f0"); ck = sorted(os.listdir(d))[-1]
    sim = RestartDump.load(os.path.join(d, ck))
    hist = [snap(sim)]
    if "nseed" in cfg: qed.seed_numba(cfg["nseed"] * 31 + rank + 7)
    @callback(stage="end")
    def rec(s): hist.append(snap(s))
    sim.run(nsteps=cfg["more"], callbacks=([qed.haste(cfg)] if "nseed" in cfg else []) + [rec])
    return int(ck.split("_")[-1]) + 1, hist

def judge(cfg, hist, seen, what):
    """hist: list over time of per-species particle lists; `seen` (per species id -> weight) carries over."""
    dim = cfg["dim"]; L, d = scen.box(cfg)
    for t, g in enumerate(hist):
        for i, s in enumerate(g):
            ids = s["_id"].view(np.uint64); w = s["w"]; name = f"{what} snapshot {t}, {cfg['species'][i]['kind']}({i})"
            uq, n = np.unique(ids, return_counts=True)
            if (n > 1).any():
                k = np.nonzero(ids == uq[n > 1][0])[0]
                return V("duplicate-id", f"{name}: {int((n - 1).sum())} ids are carried by more than one particle, e.g. {int(uq[n > 1][0]):#x} by particles of weight {w[k].tolist()}")
            m = seen[i]; prev = None
            for a, b in zip(ids.tolist(), w.tolist()):
                if a in m:
                    if m[a][0] != b: return V("id-moved", f"{name}: id {a:#x} was carried by a particle of weight {m[a][0]:.0f}, now by one of weight {b:.0f}")
                    if m[a][1] != t - 1 and m[a][1] != t: return V("id-recycled", f"{name}: id {a:#x} of a particle that no longer existed is carried again")
            if not cfg.get("nseed") and t and len(set(ids.tolist()) - set(m)): return V("id-changed", f"{name}: ids {[hex(x) for x in list(set(ids.tolist()) - set(m))[:3]]} appear although no particle was created")
            if t:   # a particle moves by less than one cell in each direction
                p = hist[t - 1][i]; o1, o2 = np.argsort(p["_id"].view(np.uint64)), np.argsort(ids)
                c, k1, k2 = np.intersect1d(p["_id"].view(np.uint64), ids, return_indices=True)
                for q, a in enumerate("xyz"[:dim]):
                    dx = s[a][k2] - p[a][k1]
                    if cfg["bc"][q] == "p": dx = dx - L[q] * np.rint(dx / L[q])
                    if (np.abs(dx) > 1.001 * d[q]).any(): j = np.argmax(np.abs(dx)); return V("id-jumped", f"{name}: id {int(c[j]):#x} jumps by {dx[j] / d[q]:.2f} cells along {a} in one step")
            for a, b in zip(ids.tolist(), w.tolist()): m[a] = (b, t)
    for m in seen:
        for a in m: m[a] = (m[a][0], -1 if m[a][1] == len(hist) - 1 else -9)
    return None

class P14(Prop):
    id = "P14"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks, with or without photon emission and pair creation, with load balancing, pruning of dead slots and checkpoints; the ids of all particles are recorded after every step, also in a job restarted from a checkpoint, and checked over the whole history."
    assumptions = ["Ids are unique within a species (the same id may occur in two species).", "A particle crosses less than one cell per step (CFL)."]
    def warm(self):
        from .p08 import warm_restart
        qed.warm(); scen.warm_full(); warm_restart()
    def gen(self, rng, tier, i):
        c = qed.gen(rng, steps=(2, 6)) if rng.random() < 0.6 else scen.gen_full(rng, steps=(2, 6), nmax=80)
        scen.add_mask(rng, c)
        c["lb"] = rng.choice([None, 1e-6, 0.2])
        c["prune"] = rng.random() < 0.25; c["feats"] = []
        if rng.random() < 0.35: c["feats"] = [dict(f="ckpt", iv=rng.choice([1, 2]), keep=None)]; c["more"] = rng.randint(1, 4)
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        o = ctx.run(program, c["nranks"], args=(c, root))
        v = outcome_violations(o, what="run")
        if v: return v
        h = o.values(); ns = len(c["species"])
        if len({len(x) for x in h}) != 1: return [V("calls", "ranks disagree on the number of steps")]
        hist = [qed.gather([x[t] for x in h]) if ns else [] for t in range(len(h[0]))]
        seen = [{} for _ in range(ns)]
        v = judge(c, hist, seen, "run")
        if v: return [v]
        if c["feats"]:
            r = ctx.run(resumed, c["nranks"], args=(c, root), name="restarted")
            v = outcome_violations(r, what="restarted job")
            if v: return v
            k = r.values()[0][0]
            # the restarted job continues the history up to the dump
            seen = [{} for _ in range(ns)]; v = judge(c, hist[:k + 1], seen, "run")
            h = [x[1] for x in r.values()]
            h2 = [qed.gather([x[t] for x in h]) if ns else [] for t in range(len(h[0]))]
            v = judge(c, h2, seen, "restarted job")
            if v: return [dict(v, sig="restart:" + v["sig"])]
        return []
    def shrink(self, c):
        if c["feats"]: yield dict(c, feats=[])
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["prune"]: yield dict(c, prune=False)
        if c["cbs"]: yield dict(c, cbs=False)
        yield from scen.shrink_grid(c)
PROP = P14()
