"""P15 seeded runs: the initial particles follow the profiles and the seed alone, and a seeded run can be repeated."""
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations

def program(rank, cfg):
    from lambdapic import callback
    from lambdapic.callback.utils import SetMomentum, SetMomentumAndTemperature, SetTemperature
    from .. import qed
    import random
    qed.seed_numba(cfg["foreign"] + rank); np.random.seed((cfg["foreign"] + 17 * rank) % 2**32); random.seed(cfg["foreign"])   # what the streams of the process hold is not part of the seed
    def add(sim, sp):
        if cfg["coll"]: sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    sim = scen.build(cfg, add=add)
    first = scen.observe(sim, fields=())
    for p in sim.patches:   # the creation order within a patch, for the comparison of streams
        first[p.index]["rel"] = [((p.particles[i].x / p.dx - 0.5) % 1.0)[:60].copy() for i in range(len(p.particles))]
        first[p.index]["at"] = (p.x0, p.y0, getattr(p, "z0", 0.0), p.nx, p.ny, getattr(p, "nz", 0))
    cbs = []; kw = {"interval": 2, "add": True} if cfg.get("heat") else {}
    for sp, T, B in zip(sim.species, cfg["temp"], cfg.get("bulk") or [None] * len(cfg["temp"])):
        if T and B and not cfg.get("apart"): cbs.append(SetMomentumAndTemperature(sp, list(B), T, **kw))
        else:   # drift and temperature one after the other are the same thing
            if B: cbs.append(SetMomentum(sp, list(B), **kw))
            if T: cbs.append(SetTemperature(sp, T, **(dict(kw, add=True) if B else kw)))
    heat, gam = {}, []
    @callback(stage="start", interval=lambda s: s.itime == 0)
    def hot(s):
        for p in s.patches:
            for i, part in enumerate(p.particles):
                al = part.is_alive; g = 1 / np.sqrt((0 if cfg["species"][i]["kind"] == "photon" else 1) + part.ux[al] ** 2 + part.uy[al] ** 2 + part.uz[al] ** 2)
                if (cfg["temp"][i] or (cfg.get("bulk") or {i: 0})[i]) and not np.allclose(part.inv_gamma[al], g, rtol=1e-12): gam.append((i, p.index))
        for p in s.patches: heat[p.index] = [p.particles[i].ux[p.particles[i].is_alive][:8].copy() if T else np.zeros(0) for i, T in enumerate(cfg["temp"])]
    cbs.append(hot)
    if cfg["steps"]: sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(first=first, last=scen.observe(sim), heat=heat, gam=gam)

def expected(cfg, at):
    """Cells of a patch with the number and weight of particles the profiles ask for."""
    from .. import profiles
    dim = cfg["dim"]; L, d = scen.box(cfg); out = []
    ax = [at[q] + d[q] * np.arange(at[3 + q]) for q in range(dim)]
    for s in cfg["species"]:
        n = np.zeros([len(a) for a in ax], int); w = np.zeros(n.shape)
        f = getattr(profiles, f"{s['dens']}{dim}").py_func; pp = (getattr(profiles, f"vppc{dim}") if s["dens"] == "bump" else scen.ppc_fn(dim)).py_func
        for i in np.ndindex(n.shape):
            x = [ax[q][k] for q, k in enumerate(i)]; D = f(*x)
            absorbed = any(b != "p" and not 2 <= round((at[q] / d[q])) + i[q] < cfg["np"][q] * cfg["nc"][q] - 2 for q, b in enumerate(cfg["bc"]))   # the absorbing layers hold no particles
            if D > s["dmin"] and int(pp(*x)) > 0 and not absorbed: n[i] = int(pp(*x)); w[i] = D * np.prod(d[:dim]) / n[i]
        out.append((n, w))
    return out

class P15(Prop):
    id = "P15"; quick_s = 20.0
    rule = "A case draws a grid, a partition over 1-5 ranks, species with density and particle number profiles, temperatures and collision groups and a seed of the random streams; the job is run twice under different schedules, thread counts and message timings, and once with another seed."
    assumptions = ["The partition and the rank count are part of what a seeded run depends on (the streams are per rank).", "No load balancing by measured cost and no QED: both depend on more than the seed."]
    def warm(self):
        for w in (scen.W2, scen.W3):
            c = dict(w, species=[dict(kind="electron", dens="bump", dmin=0, name="a"), dict(kind="proton", dens="bump", dmin=0, name="b")], loaded=True, steps=2, foreign=1, coll=[[0, 0, 1]], temp=[100.0, 0], e0=1e9)
            program(0, c)
        scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_grid(rng); c["bc"] = "".join(rng.choice("ppo") for _ in range(c["dim"])); scen.fix_grid(c)
        c["part"] = rng.choice(["random", "random", "metis", "skew", "roundrobin"]); c["pseed"] = rng.randrange(1000)
        kinds = rng.choice([["electron"], ["electron", "proton"], ["electron", "ion", "electron"], ["proton", "photon"]])
        c["species"] = [dict(kind=k, name=f"s{j}", dens="bump", dmin=rng.choice([0, 0, 3e24, 1.05e25]), mass=25.0) for j, k in enumerate(kinds)]
        c["temp"] = [rng.choice([0, 1e3, 1e5, 1e6, [1e3, 2e3, 0.0], [1e6, 1e5, 1e5]]) if s["kind"] != "photon" else 0 for s in c["species"]]
        c["bulk"] = [rng.choice([None, [1.0, -0.5, 0.0], [0.0, 0.0, 20.0]]) if s["kind"] != "photon" else None for s in c["species"]] if rng.random() < 0.4 else None
        c["heat"] = rng.random() < 0.3   # again every other step
        ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        c["coll"] = rng.choice([[], [], [[ch[0], ch[0]]], [[j for j in ch for _ in (0, 1)]], [ch]]) if len(ch) > 1 else rng.choice([[], [[ch[0], ch[0]]]])
        c["loaded"] = True; c["lb"] = None; c["rseed"] = rng.randrange(2**31); c["fseed"] = rng.randrange(1000)
        c["e0"] = rng.choice([0.0, 1e10, 1e12]); c["omp"] = rng.choice([1, 3]); c["steps"] = rng.choice([0, 1, 2, 4]); c["sched"] = scen.gen_sched(rng); c["sched2"] = scen.gen_sched(rng)
        return c
    def execute(self, c, ctx):
        runs = []
        for k in range(2):
            cc = c if k == 0 else dict(c, sched=c["sched2"], omp=4 - c["omp"])
            o = ctx.run(program, c["nranks"], args=(dict(c, apart=bool(k), foreign=c["rseed"] % 9973 + 7919 * k),), sched=cc["sched"], omp=cc["omp"], name=f"r{k}")
            v = outcome_violations(o, what="seeded run" if k == 0 else "repetition")
            if v: return v
            for r, x in enumerate(o.values()):
                if x["gam"]: return [V("gamma", f"rank {r}, species {x['gam'][0][0]} in patch {x['gam'][0][1]}: the Lorentz factor does not follow the momenta set")]
            runs.append(o.values())
        A, dup = scen.merge([r["first"] for r in runs[0]]); B, _ = scen.merge([r["first"] for r in runs[1]])
        if dup or set(A) != set(B): return [V("patches", "the runs do not hold the same patches")]
        L, d = scen.box(c); dim = c["dim"]; seen = {}
        for k in sorted(A):
            a, b = A[k], B[k]; ex = expected(c, a["at"])
            for i, s in enumerate(c["species"]):
                name = f"{s['kind']}({i}) in patch {k}"
                for at in a["p"][i]:
                    if at != "slots" and at != "_id" and not np.array_equal(a["p"][i][at], b["p"][i][at], equal_nan=True): return [V("initial-state", f"{name}: initial {at} differs between two runs with the same seed")]
                n, w = ex[i]; q = a["p"][i]; cell = [np.clip(np.floor((q[x] - a["at"][j]) / d[j] + 0.5).astype(int), 0, n.shape[j] - 1) for j, x in enumerate("xyz"[:dim])]
                m = np.zeros(n.shape, int); np.add.at(m, tuple(cell), 1)
                if not np.array_equal(m, n): j = np.argwhere(m != n)[0]; return [V("load-count", f"{name}: cell {j.tolist()} starts with {m[tuple(j)]} particles, the profile asks for {n[tuple(j)]}")]
                if (np.abs(q["w"] - w[tuple(cell)]) > 1e-12 * w.max()).any(): return [V("load-weight", f"{name}: initial weights do not follow the density profile")]
                r = a["rel"][i]
                for j in range(0, len(r) // 4):   # positions within the cell identify the part of the stream they come from
                    key = tuple(np.round(r[4 * j:4 * j + 4], 9))
                    if key in seen: return [V("shared-stream", f"{name}: particles {4*j}..{4*j+3} sit at the same places of their cells as those of {seen[key]}: both draw the same random numbers")]
                    seen[key] = f"{name}, rank {a['rank']}"
        seen = {}
        for r, x in enumerate(runs[0]):
            for k, us in x["heat"].items():
                for i, u in enumerate(us):
                    if u.size >= 4:
                        key = tuple(np.round(np.abs(u[:4] / np.abs(u).max()), 9))
                        if key in seen: return [V("shared-stream", f"species {i} in patch {k} on rank {r}: the momenta drawn are those of {seen[key]}")]
                        seen[key] = f"species {i} in patch {k} on rank {r}"
        A, _ = scen.merge([r["last"] for r in runs[0]]); B, _ = scen.merge([r["last"] for r in runs[1]])
        v = self.compare(c, A, B)
        if v: return [v]
        o = ctx.run(program, c["nranks"], args=(dict(c, rseed=c["rseed"] + 1, steps=0, foreign=c["rseed"] % 9973),), name="other")
        v = outcome_violations(o, what="run with another seed")
        if v: return v
        Z, _ = scen.merge([r["first"] for r in o.values()]); A, _ = scen.merge([r["first"] for r in runs[0]])
        for k in A:
            for i in range(len(c["species"])):
                if A[k]["p"][i]["x"].size and np.array_equal(A[k]["p"][i]["x"], Z[k]["p"][i]["x"]): return [V("seed-ignored", f"species {i} in patch {k}: another seed gives the same positions")]
        return []
    def compare(self, c, A, B):
        """Final states of both runs, to rounding; identity by id."""
        if set(A) != set(B): return V("patches", "the runs do not hold the same patches")
        for k in sorted(A):
            for i, s in enumerate(c["species"]):
                a, b = A[k]["p"][i], B[k]["p"][i]; o1, o2 = np.argsort(a["_id"].view(np.uint64)), np.argsort(b["_id"].view(np.uint64))
                if a["w"].size != b["w"].size or not np.array_equal(a["_id"].view(np.uint64)[o1], b["_id"].view(np.uint64)[o2]): return V("repeat:particles", f"patch {k} species {i}: the repetition ends with other particles")
                for at in a:
                    if at in ("slots", "_id"): continue
                    dv = scen.close(a[at][o1], b[at][o2], 0)
                    if not dv <= 1e-9: return V("repeat:particle-state", f"patch {k} species {i}: {at} differs by {dv:.3g} of its scale between two runs with the same seed")
        for f in scen.FIELDS:
            x, y = scen.global_array(A, c, f), scen.global_array(B, c, f); dv = scen.close(x, y, 0)
            if not dv <= 1e-9: return V("repeat:fields", f"{f} differs by {dv:.3g} of its scale between two runs with the same seed")
        return None
    def shrink(self, c):
        if c["coll"]: yield dict(c, coll=[])
        if c.get("bulk"): yield dict(c, bulk=None)
        if any(c["temp"]): yield dict(c, temp=[0] * len(c["temp"]))
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]))
PROP = P15()
