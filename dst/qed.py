"""Scenarios with photon emission and pair creation: strong fields, energetic particles, seeded quantum random numbers."""
from __future__ import annotations
import numpy as np
from . import scen

_seed = None
def seed_numba(n):
    """The QED kernels draw from numba's own generator: the simulator seeds it, per rank."""
    global _seed
    if _seed is None:
        from numba import njit
        @njit
        def f(n): np.random.seed(n)
        _seed = f
    _seed(n % 2**32)

def gen(rng, steps=(1, 5), nmax=60):
    c = scen.gen_full(rng, steps=steps, mix=[[]])
    crowd = rng.random() < 0.15   # arrays beyond 1000 bytes even for flags: pickled copies no longer own their memory
    n = lambda: rng.choice([0, 3, 15, nmax] if not crowd else [nmax, 4000, 6000])
    sp = lambda kind, **k: dict(kind=kind, n=n(), u=rng.choice([300.0, 2000.0, 2000.0]), edge=0.2, wscale=1.0, clump=rng.choice([0, 0, 5]), **k)
    kind = rng.choice(["rad", "rad", "pair", "full", "full", "full"])
    if kind == "rad": s = [sp("electron", rad=1, pol=rng.random() < 0.3), sp("photon")]
    elif kind == "pair": s = [sp("photon", bw=[1, 2]), sp("electron"), sp("positron")]
    else:
        order = rng.sample(["e", "p", "g"], 3); at = {k: i for i, k in enumerate(order)}
        mk = dict(e=lambda: sp("electron", rad=at["g"]), p=lambda: sp("positron", **(dict(rad=at["g"]) if rng.random() < 0.7 else {})), g=lambda: sp("photon", bw=[at["e"], at["p"]]))
        s = [mk[k]() for k in order]
        if rng.random() < 0.3: s.append(sp("proton"))
    if crowd: c["np"] = [min(x, 2) for x in c["np"]]; c["nranks"] = min(c["nranks"], int(np.prod(c["np"])))
    if not any(x["n"] for x in s): s[0]["n"] = 15
    for k, x in enumerate(s): x["name"] = f"s{k}"
    c["species"] = s; c["e0"] = rng.choice([1e14, 1e15, 5e15, 5e15]); c["cbs"] = rng.random() < 0.2
    c["lb"] = rng.choice([None, None, 1e-6])
    c["nseed"] = rng.randrange(10**6); c["haste"] = rng.choice([0.05, 0.3, 0.3, 0.8])
    return c

def build(cfg, rank):
    seed_numba(cfg["nseed"] * 31 + rank)
    return scen.build(cfg)

def haste(cfg):
    """Every step some particles, chosen by the case, are due for an event: their optical depth is used up."""
    from lambdapic import callback
    @callback(stage="start")
    def cb(sim):
        for p in sim.patches:
            for isp, part in enumerate(p.particles):
                if hasattr(part, "tau"):
                    h = np.sin(part.w * 12.9898 + sim.itime * 78.233 + cfg["nseed"]) * 43758.5453; h = h - np.floor(h)
                    part.tau[(h < cfg["haste"]) & ~part.is_dead] = 1e-9
    return cb

def links(cfg):
    """(source species, photon species) of emission and (photon, electron, positron) of pair creation."""
    S = cfg["species"]
    return [(i, s["rad"]) for i, s in enumerate(S) if s.get("rad") is not None], [(i, *s["bw"]) for i, s in enumerate(S) if s.get("bw")]

def particles(sim, extra=("event",), attrs=None):
    """Alive particles of this rank per species, with the flags that are not migrated."""
    out = []
    for isp in range(len(sim.patches.species)):
        g = {}
        for p in sim.patches:
            part = p.particles[isp]; al = ~np.asarray(part.is_dead)
            for a in list(attrs or part.attrs) + [e for e in extra if hasattr(part, e)]: g.setdefault(a, []).append(np.asarray(getattr(part, a))[al].copy())
        out.append({a: np.concatenate(v) if v else np.zeros(0) for a, v in g.items()})
    return out

def gather(vals):
    """Joins per-rank particle lists."""
    return [{a: np.concatenate([v[i][a] for v in vals]) for a in vals[0][i]} for i in range(len(vals[0]))]

def warm():
    for w in (scen.W2, scen.W3):
        for pol in (False, True):
            c = dict(w, species=[dict(kind="electron", n=30, u=2000.0, rad=2, pol=pol), dict(kind="positron", n=20, u=2000.0, rad=2), dict(kind="photon", n=30, u=2000.0, bw=[0, 1])], e0=1e15, nseed=1, steps=3, haste=0.5)
            for k, s in enumerate(c["species"]): s["name"] = f"s{k}"
            if pol: c["species"] = [c["species"][0], c["species"][1], dict(kind="photon", n=5, u=2000.0, name="s2")]
            sim = build(c, 0); sim.run(3, callbacks=[haste(c)])
