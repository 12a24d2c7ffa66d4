"""P33 sorting: a permutation of the particles of a patch, each moved as a whole, with bounds that delimit the particles of every bucket."""
import os
import numpy as np
from .. import scen, mix, qed
from ..core import Prop, V, outcome_violations

class Judge:
    def __init__(self, cfg, rank): self.cfg, self.rank, self.bad, self.n, self.moved, self.flip = cfg, rank, [], 0, 0, {}
    def add(self, sig, msg):
        if len(self.bad) < 3: self.bad.append((sig, msg))
    def snap(self, part):
        al = ~np.asarray(part.is_dead)
        return al, {a: np.asarray(getattr(part, a)).copy() for a in part.attrs}
    def stir(self, sim, rng):
        """Histories bring particle arrays into any order, with dead slots anywhere; particles far from their patch are put back after the sort."""
        cfg = self.cfg; dim = cfg["dim"]; far = []; grown = False
        for p in sim.patches:
            for i, part in enumerate(p.particles):
                if rng.random() < cfg["calm"]: continue
                if rng.random() < 0.2: part.extend(int(rng.integers(1, 9))); grown = True
                n = part.npart
                if not n: continue
                if rng.random() < 0.5:
                    k = rng.permutation(n)
                    for a in part.attrs + ["is_dead"]: x = np.asarray(getattr(part, a)); x[:] = x[k]
                al = np.flatnonzero(~np.asarray(part.is_dead)); d = (p.dx, p.dy, getattr(p, "dz", 1.0)); o = (p.x0, p.y0, getattr(p, "z0", 0.0)); m = (p.nx, p.ny, getattr(p, "nz", 1))
                tele = al[rng.random(al.size) < rng.choice([0, 0.3, 1])]; one = rng.random() < 0.3
                for q in range(dim):
                    f = np.floor(rng.random(tele.size) * m[q]) if not one else np.full(tele.size, float(rng.integers(0, m[q])))
                    np.asarray(getattr(part, "xyz"[q]))[tele] = o[q] + d[q] * (f - 0.5 + 0.02 + 0.96 * rng.random(tele.size))
                kill = al[rng.random(al.size) < rng.choice([0, 0, 0.2, 0.7])]
                part.is_dead[kill] = True
                if rng.random() < 0.5: part.x[kill] = np.nan; part.y[kill] = np.nan
                if rng.random() < 0.2:
                    al = np.flatnonzero(~np.asarray(part.is_dead)); out = al[rng.random(al.size) < 0.2]; q = int(rng.integers(0, dim)); x = np.asarray(getattr(part, "xyz"[q]))
                    ids = set(part._id[out].view(np.uint64).tolist()); far.append((p, part, q, ids)); x[out] = o[q] + d[q] * m[q] * rng.choice([-3.0, -0.2, 1.2, 40.0], out.size)
        if grown: sim.update_lists()
        return far
    def look(self, sim):
        from numpy.random import Generator, PCG64
        cfg = self.cfg; dim = cfg["dim"]; rng = Generator(PCG64([cfg["popseed"], sim.itime, self.rank, 77]))
        for again in range(cfg["again"]):
            far = self.stir(sim, rng); away = {}
            for p, part, q, ids in far: away.setdefault(id(part), set()).update(ids)
            for i, s in enumerate(cfg["species"]):
                if self.bad: return
                pre = [self.snap(p.particles[i]) for p in sim.patches]
                ret = sim.sorter[i]()
                changed = 0
                for ip, p in enumerate(sim.patches):
                    part = p.particles[i]; a0, g0 = pre[ip]; a1, g1 = self.snap(part); name = f"step {sim.itime} patch {p.index} {s['kind']}({i})"
                    if a0.size != a1.size or any(g1[a].size != a1.size for a in g1): return self.add("size", f"{name}: sorting changed the length of the arrays")
                    i0, i1 = g0["_id"][a0].view(np.uint64), g1["_id"][a1].view(np.uint64); k0, k1 = np.argsort(i0), np.argsort(i1)
                    if not np.array_equal(i0[k0], i1[k1]): return self.add("population", f"{name}: sorting changed the set of living particles ({i0.size} -> {i1.size}, {np.setdiff1d(i0, i1).size} lost)")
                    for a in g0:
                        if not np.array_equal(g0[a][a0][k0].view(np.uint64), g1[a][a1][k1].view(np.uint64)): return self.add("torn", f"{name}: '{a}' did not move with its particle")
                    changed += int((g0["_id"].view(np.uint64) != g1["_id"].view(np.uint64)).sum())
                    lo, hi = (np.asarray(l[ip]) for l in (sim.sorter[i].bucket_bound_min_list, sim.sorter[i].bucket_bound_max_list)); shape = lo.shape; lo, hi = lo.ravel(), hi.ravel()
                    if lo[0] != 0 or hi[-1] != a1.size or (lo[1:] != hi[:-1]).any() or (hi < lo).any(): return self.add("bounds", f"{name}: the bounds of the buckets do not cut the {a1.size} slots into consecutive pieces")
                    live = np.flatnonzero(a1); b = np.repeat(np.arange(lo.size), hi - lo)[live]; B = np.unravel_index(b, shape)
                    o = (p.x0 - p.dx / 2, p.y0 - p.dy / 2, getattr(p, "z0", 0.0) - getattr(p, "dz", 0.0) / 2); d = (p.dx, p.dy, getattr(p, "dz", 1.0)); m = (p.nx, p.ny, getattr(p, "nz", 1))
                    f = np.array([(g1["xyz"[q]][live] - o[q]) / d[q] for q in range(dim)]); ok = ((np.abs(f - np.rint(f)) > 1e-9) & (f > 0) & (f < np.array(m[:dim])[:, None])).all(axis=0)
                    if away.get(id(part)): ok &= ~np.isin(g1["_id"][live].view(np.uint64), np.array(sorted(away[id(part)]), np.uint64))
                    cell = np.floor(f).astype(int)
                    for q in range(dim):
                        if shape[q] == 1: continue
                        if shape[q] != m[q]: return self.add("shape", f"{name}: buckets {shape} for cells {m}")
                        plain, mirror = bool((cell[q] == B[q])[ok].all()), bool((m[q] - 1 - cell[q] == B[q])[ok].all())
                        if plain and mirror: continue
                        fl = self.flip.get((i, q)); want = False if (q or cfg["coll"]) else fl
                        if want is None and (plain or mirror): self.flip[i, q] = mirror; continue
                        if not (mirror if want else plain): j = np.flatnonzero(ok & ((m[q] - 1 - cell[q] if want else cell[q]) != B[q])); j = j[0] if j.size else 0; return self.add("bucket", f"{name}: a particle in cell {cell[:, j].tolist()} lies in bucket {[int(x[j]) for x in B]} ({'mirrored' if want else 'plain'} numbering in {'xyz'[q]}, {int(live.size)} particles)")
                    if cfg["coll"] and shape != m[:dim]: return self.add("shape", f"{name}: collisions need a bucket for every cell, there are {shape}")
                    self.n += 1
                self.moved += changed
                if not isinstance(ret, (int, np.integer)) or ret < changed: return self.add("count", f"step {sim.itime} {s['kind']}({i}): {changed} slots hold another particle, the sort tells of {ret}")
            for p, part, q, ids in far:
                al = np.flatnonzero(~np.asarray(part.is_dead)); k = al[np.isin(part._id[al].view(np.uint64), np.array(sorted(ids), np.uint64))]
                np.asarray(getattr(part, "xyz"[q]))[k] = ((p.x0, p.y0, getattr(p, "z0", 0.0))[q] + (p.dx, p.dy, getattr(p, "dz", 1.0))[q] * ((p.nx, p.ny, getattr(p, "nz", 1))[q] // 2 + 0.1))
    def callbacks(self):
        from lambdapic import callback
        @callback(stage="start")
        def look(s): self.look(s)
        return [look]

def drive(sim, rank, cfg, root, steps):
    from lambdapic.callback.utils import MovingWindow
    j = Judge(cfg, rank); mw = [MovingWindow(velocity=cfg["mw"] * scen.C0, start_time=0.0)] if cfg.get("mw") else []
    sim.run(nsteps=steps, callbacks=mw + mix.make(sim, cfg, cfg["feats"], root, {}) + j.callbacks())
    return j.bad, j.n, j.moved

def program(rank, cfg, root):
    def add(sim, sp):
        if cfg["coll"]: sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    if cfg.get("nseed"): qed.seed_numba(cfg["nseed"] * 31 + rank)
    return drive(scen.build(cfg, add=add), rank, cfg, root, cfg["steps"])

def resumed(rank, cfg, root):
    from lambdapic.callback.restart import RestartDump
    d = os.path.join(root, "f0"); return drive(RestartDump.load(os.path.join(d, sorted(os.listdir(d))[-1])), rank, dict(cfg, feats=[]), root, cfg["more"])

class P33(Prop):
    id = "P33"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks with 1-8 threads, species (with photon emission and pair creation among them) drifting either way, with and without collisions, load balancing, a moving window, checkpoints and continuation; at the start of every step the arrays are shuffled, grown, holed, crowded into cells and partly thrown out of their patches, then sorted, and compared before and after."
    assumptions = ["What a dead slot holds and where it goes is not judged, nor the bucket of a particle on a cell edge or outside its patch.", "The mirrored numbering of species drifting to -x is accepted where no collisions use it, when all patches of a rank agree on it for the whole run."]
    def warm(self):
        import tempfile
        from .p08 import warm_restart
        scen.warm_full(); warm_restart(); qed.warm()
        for w in (scen.W2, scen.W3):
            c = dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b")], coll=[[0, 1]], steps=2, feats=[], calm=0.0, again=1, popseed=1)
            with tempfile.TemporaryDirectory(dir=os.environ.get("DST_SCRATCH", "/dev/shm")) as root: program(0, c, root); program(0, dict(c, coll=[], bc="o" + c["bc"][1:], mw=1.0, np=[3] + c["np"][1:]), root)
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 5), nmax=200); cells = int(np.prod(c["np"]) * np.prod(c["nc"]))
        if rng.random() < 0.25: q = qed.gen(rng); c["species"] = q["species"]; c["nseed"] = q["nseed"] + 1; c["e0"] = rng.choice([0.0, 1e14, 1e15])   # other attributes than plain particles, in any order
        for s in c["species"]: s["n"] = rng.choice([0, 1, s["n"], cells // 2, cells * 2])
        ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        c["coll"] = rng.choice([[ch], [[j, j] for j in ch]]) if len(ch) > 1 and rng.random() < 0.4 else []
        c["lb"] = rng.choice([None, None, 1e-6]); c["omp"] = rng.choice([1, 2, 4, 8]); c["sched"]["omp"] = rng.choice([0.0, 0.5, 1.0])
        c["calm"] = rng.choice([0.0, 0.3, 0.8]); c["again"] = rng.choice([1, 1, 2, 3])
        c["mw"] = rng.choice([1.0, 3.0, -2.0]) if c["bc"][0] == "o" and c["np"][0] > 2 and rng.random() < 0.5 else None
        c["feats"] = []
        if rng.random() < 0.2: c["feats"] = [dict(f="ckpt", iv=rng.choice([1, 2]), keep=None)]; c["more"] = rng.randint(1, 3); c["mw"] = None
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        for k, prog in enumerate((program, resumed)[:2 if c["feats"] else 1]):
            what = "restarted job" if k else "run"
            o = ctx.run(prog, c["nranks"], args=(c, root), name="restarted" if k else "run")
            v = outcome_violations(o, what=what)
            if v: return v
            for r, (bad, n, moved) in enumerate(o.values()):
                if bad: return [V(("restart:" if k else "") + bad[0][0], f"{what}, rank {r}: {bad[0][1]}")]
        return []
    def shrink(self, c):
        if c["feats"]: yield dict(c, feats=[])
        if c["mw"]: yield dict(c, mw=None)
        if c["lb"] is not None: yield dict(c, lb=None)
        if c["coll"]: yield dict(c, coll=[])
        if c["calm"] < 0.8: yield dict(c, calm=0.8)
        if c["again"] > 1: yield dict(c, again=1)
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]))
PROP = P33()
