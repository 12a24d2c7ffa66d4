"""P22 collisions: conserve momentum and energy cell by cell, involve every partner present and nobody else."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

EPS0 = 8.8541878128e-12; C0 = scen.C0
def pairs(cfg):
    """Pairs of species that collide, as the groups say: every pair of entries of a group."""
    out = set()
    for g in cfg["coll"]:
        for a in range(len(g)):
            for b in range(a + 1, len(g)): out.add((min(g[a], g[b]), max(g[a], g[b])))
    return out

class Judge:
    """Compares, in every patch of this rank, the particles before and after the collisions of each step."""
    def __init__(self, cfg): self.cfg = cfg; self.bad = []; self.n = 0; self.hits = 0; self.pre = None
    def add(self, sig, msg):
        if len(self.bad) < 3: self.bad.append((sig, msg))
    def snap(self, sim):
        out = {}
        for p in sim.patches:
            o = (p.x0 - p.dx / 2, p.y0 - p.dy / 2, (p.z0 - p.dz / 2) if sim.dimension == 3 else 0); d = (p.dx, p.dy, getattr(p, "dz", 1.0))
            for i, part in enumerate(p.particles):
                al = ~np.asarray(part.is_dead); ids = part._id[al].view(np.uint64); k = np.argsort(ids)
                g = {a: np.asarray(getattr(part, a))[al][k].copy() for a in ["x", "y", "ux", "uy", "uz", "inv_gamma", "w"] + (["z"] if sim.dimension == 3 else [])}; g["id"] = ids[k]
                f = np.array([(g[a] - o[q]) / d[q] for q, a in enumerate("xyz"[:sim.dimension])])
                g["cell"] = np.floor(f).astype(int); g["edge"] = bool((np.abs(f - np.rint(f)) < 1e-12).any()); out[p.index, i] = g
        return out
    def before(self, sim): self.pre = self.snap(sim)
    def after(self, sim):
        if self.pre is None: return
        pre, post, cfg = self.pre, self.snap(sim), self.cfg; self.pre = None; dim = cfg["dim"]; S = sim.patches.species
        off = cfg.get("off"); pr = pairs(cfg) - ({tuple(sorted(off[0]))} if off and off[1] <= sim.itime and not (len(off) > 2 and sim.itime >= off[2]) else set())
        busy = {i for p in pr for i in p}
        for ip, p in enumerate(sim.patches):
            nc = (p.nx, p.ny, p.nz) if dim == 3 else (p.nx, p.ny); doubt = any(pre[p.index, i]["edge"] for i in range(len(S)))
            A = []; 
            for i, s in enumerate(S):
                a, b = pre[p.index, i], post[p.index, i]; name = f"step {sim.itime} patch {p.index} {cfg['species'][i]['kind']}({i})"
                if not np.array_equal(a["id"], b["id"]): return self.add("population", f"{name}: sorting and colliding changed the set of particles ({a['id'].size} -> {b['id'].size})")
                if not np.array_equal(a["w"], b["w"]): return self.add("weight", f"{name}: weights changed")
                if i != sim.ispec and not (np.array_equal(a["x"], b["x"]) and np.array_equal(a["y"], b["y"])): return self.add("position", f"{name}: collisions moved particles")
                ch = np.zeros(a["w"].size, bool)
                for q in ("ux", "uy", "uz"): ch |= a[q] != b[q]
                if i not in busy and (ch.any() or not np.array_equal(a["inv_gamma"], b["inv_gamma"])): return self.add("bystander", f"{name}: a species that takes part in no collision changed its momentum")
                g = 1 / np.sqrt(1 + b["ux"] ** 2 + b["uy"] ** 2 + b["uz"] ** 2)
                if (np.abs(b["inv_gamma"] - g)[ch] > 1e-12 * g[ch]).any(): return self.add("gamma", f"{name}: gamma does not belong to the momentum after a collision")
                A.append((a, b, ch))
            if doubt: continue
            flat = [np.ravel_multi_index(tuple(np.clip(a["cell"][q], 0, nc[q] - 1) for q in range(dim)), nc) for a, _, _ in A]; N = int(np.prod(nc))
            cnt = [np.bincount(f, minlength=N) for f in flat]
            # connected species exchange momentum with each other only
            comp = {i: i for i in busy}
            for x, y in pr:
                cx, cy = comp[x], comp[y]
                for k in comp:
                    if comp[k] == cy: comp[k] = cx
            for i in sorted(busy):
                a, b, ch = A[i]
                part = np.zeros(N, bool)
                for x, y in pr:
                    if x == y == i: part |= cnt[i] >= 2
                    elif i in (x, y): part |= (cnt[x] > 0) & (cnt[y] > 0)
                if (ch & ~part[flat[i]]).any(): j = np.nonzero(ch & ~part[flat[i]])[0][0]; return self.add("no-partner", f"step {sim.itime} patch {p.index} {cfg['species'][i]['kind']}({i}): a particle with no partner in its cell {a['cell'][:, j].tolist()} was scattered")
                self.hits += int(ch.sum())
                if cfg["weq"]:
                    u = np.stack([a["ux"], a["uy"], a["uz"]]); moving = (u != 0).any(axis=0)
                    miss = part[flat[i]] & ~ch & moving
                    if miss.any(): j = np.nonzero(miss)[0][0]; return self.add("not-scattered", f"step {sim.itime} patch {p.index} {cfg['species'][i]['kind']}({i}): {int(miss.sum())} of {int(part[flat[i]].sum())} particles with partners in their cell were not scattered, e.g. in cell {a['cell'][:, j].tolist()}")
            if cfg["weq"]:
                for c in set(comp.values()):
                    mem = [i for i in busy if comp[i] == c]
                    for q in ("energy", "ux", "uy", "uz"):
                        x0 = np.zeros(N); x1 = np.zeros(N); sc = np.zeros(N)
                        for i in mem:
                            a, b, _ = A[i]; m = S[i].m * a["w"]
                            if q == "energy": v0, v1 = (np.sqrt(1 + k["ux"] ** 2 + k["uy"] ** 2 + k["uz"] ** 2) for k in (a, b))
                            else: v0, v1 = a[q], b[q]
                            for x, v in ((x0, v0), (x1, v1)): x += np.bincount(flat[i], m * v, minlength=N)
                            sc += np.bincount(flat[i], m * np.sqrt(1 + a["ux"] ** 2 + a["uy"] ** 2 + a["uz"] ** 2), minlength=N)
                        e = np.abs(x1 - x0) > 1e-9 * sc
                        if e.any(): j = np.nonzero(e)[0][0]; return self.add("conservation", f"step {sim.itime} patch {p.index}: collisions change the {'energy' if q == 'energy' else 'momentum ' + q[1]} of cell {[int(k) for k in np.unravel_index(j, nc)]} by {abs(x1[j] - x0[j]) / sc[j]:.3g} of its energy ({int(e.sum())} cells)")
            # screening length of each cell, from the particles present
            inv = np.zeros(N); dens = np.zeros(N); vol = p.dx * p.dy * (p.dz if dim == 3 else 1.0); vague = np.zeros(N, bool)
            for i, s in enumerate(S):
                a = A[i][0]; W = np.bincount(flat[i], a["w"], minlength=N); on = W > 0
                if s.q == 0: continue
                Ws = np.where(on, W, 1); u2 = np.zeros(a["w"].size); big = np.zeros(a["w"].size)
                for q in ("ux", "uy", "uz"): mean = np.bincount(flat[i], a["w"] * a[q], minlength=N) / Ws; u2 += (a[q] - mean[flat[i]]) ** 2; big += a[q] ** 2
                kT = np.bincount(flat[i], a["w"] * u2 / np.sqrt(1 + u2) / 3, minlength=N) / Ws * s.m * C0 ** 2
                vague |= (cnt[i] >= 1) & (kT < 1e-6 * np.bincount(flat[i], a["w"] * big, minlength=N) / Ws * s.m * C0 ** 2)
                with np.errstate(divide="ignore", invalid="ignore"): inv += np.where(on, np.where(kT > 0, W / vol * s.q ** 2 / (EPS0 * kT), np.inf), 0.0)
                dens += W / vol
            with np.errstate(divide="ignore"):
                lim = (4 * np.pi * dens / 3) ** (2 / 3); inv = np.where(inv > 0, np.minimum(inv, lim), inv)
            inv = np.where(vague & (dens > 0), np.nan, inv)
            got = np.asarray(sim.collision.debye_length_inv_square_list[ip]).ravel()
            if got.size == N:
                e = ~np.isnan(inv) & ~(np.abs(got - inv) <= 1e-6 * np.abs(inv))
                if e.any(): j = np.nonzero(e)[0][0]; return self.add("screening", f"step {sim.itime} patch {p.index} cell {[int(k) for k in np.unravel_index(j, nc)]}: inverse squared screening length {got[j]:.4g}, the particles present give {inv[j]:.4g} ({int(e.sum())} cells)")
            self.n += 1
    def callbacks(self):
        from lambdapic import callback
        @callback(stage="maxwell_1")
        def before(s):
            off = self.cfg.get("off")
            if off and s.itime == off[1]: s.collision.disable(tuple(s.species[i] for i in off[0]))
            if off and len(off) > 2 and s.itime == off[2]: s.collision.enable(tuple(s.species[i] for i in off[0][::-1]))
            self.before(s)
        @callback(stage="_push_position_1")
        def after(s): self.after(s)
        return [before, after]

def prepare(sim, cfg):
    """All particles weigh the same, so that every collision is accepted for both partners."""
    L, d = scen.box(cfg)
    for p in sim.patches:
        for i, part in enumerate(p.particles):
            vol = p.dx * p.dy * getattr(p, "dz", 1.0); w = cfg["n0"] * vol / 5
            part.w[:] = w if cfg["weq"] else w * (1.0 + (part.w % 7))
    sim.update_patches()

def program(rank, cfg, root):
    def add(sim, sp):
        if not cfg["late"]: sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]])
    sim = scen.build(cfg, add=add)
    if cfg["late"]: sim.add_collision([[sim.species[i] for i in g] for g in cfg["coll"]])
    prepare(sim, cfg); j = Judge(cfg)
    sim.run(nsteps=cfg["steps"], callbacks=mix.make(sim, cfg, cfg["feats"], root, {}) + j.callbacks())
    return j.bad, j.n, j.hits

def resumed(rank, cfg, root):
    from lambdapic.callback.restart import RestartDump
    d = os.path.join(root, "f0"); sim = RestartDump.load(os.path.join(d, sorted(os.listdir(d))[-1]))
    j = Judge(cfg); sim.run(nsteps=cfg["more"], callbacks=j.callbacks())
    return j.bad, j.n, j.hits

class P22(Prop):
    id = "P22"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks with charged (and neutral) species, collision groups registered before or after initialisation, with load balancing, pairs switched off and on again, checkpoints and continuation; before and after the collisions of every step the particles are compared cell by cell."
    assumptions = ["Conservation is exact only for equal weights (unequal weights conserve on average by design); unequal weights are run for the other clauses.", "The distribution of the scattering angles is judged by P35."]
    def warm(self):
        from .p08 import warm_restart
        for w in (scen.W2, scen.W3):
            for late in (False, True):
                c = dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b"), dict(kind="photon", n=5, name="g")], coll=[[0, 0, 1, 1]], late=late, weq=True, n0=1e24, steps=2, feats=[])
                import tempfile
                with tempfile.TemporaryDirectory(dir=os.environ.get("DST_SCRATCH", "/dev/shm")) as root:
                    c.update(feats=[] if late else [dict(f="ckpt", iv=1, keep=None)], more=1); program(0, c, root)
                    if not late: resumed(0, c, root)
        scen.warm_full(); warm_restart()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, mix=[[]])
        kinds = rng.choice([["electron"], ["electron", "proton"], ["electron", "ion", "electron"], ["photon", "electron", "proton"], ["electron", "photon"]])
        cells = int(np.prod(c["np"]) * np.prod(c["nc"]))
        c["species"] = [dict(kind=k, n=rng.choice([0, 5, cells // 2, cells * 2, cells * 4]), u=rng.choice([0.01, 0.1, 1.0, 5.0]), edge=rng.choice([0.0, 0.2]), clump=rng.choice([0, 0, 5]), name=f"s{j}", mass=25.0) for j, k in enumerate(kinds)]
        ch = [j for j, s in enumerate(c["species"]) if s["kind"] != "photon"]
        for j in ch: c["species"][j]["n"] = max(c["species"][j]["n"], 5)
        intra = [[j, j] for j in ch]; inter = [list(ch)] if len(ch) > 1 else []
        c["coll"] = rng.choice([intra, intra + inter, inter or intra, [[j for j in ch for _ in (0, 1)]], intra[:1]])
        c["late"] = rng.random() < 0.25; c["weq"] = rng.random() < 0.8; c["n0"] = rng.choice([1e20, 1e24, 1e26]); c["lb"] = rng.choice([None, None, 1e-6])
        c["steps"] = rng.randint(1, 6); c["off"] = None
        if rng.random() < 0.4:
            q = list(rng.choice(sorted(pairs(c)))); rng.shuffle(q)
            c["off"] = [q, rng.randint(0, c["steps"] - 1)] + ([rng.randint(1, c["steps"])] if c["steps"] > 1 and rng.random() < 0.5 else [])
            if len(c["off"]) > 2 and c["off"][2] <= c["off"][1]: c["off"] = c["off"][:2]
        c["feats"] = []
        if rng.random() < (0.6 if c["off"] else 0.25): c["feats"] = [dict(f="ckpt", iv=rng.choice([1, 2]), keep=None)]; c["more"] = rng.randint(1, 3)
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        for k, prog in enumerate((program, resumed)[:2 if c["feats"] else 1]):
            what = "restarted job" if k else "run with collisions"
            o = ctx.run(prog, c["nranks"], args=(c, root), name="restarted" if k else "run")
            v = outcome_violations(o, what=what)
            if v: return v
            for r, (bad, n, hits) in enumerate(o.values()):
                if bad: return [V(("restart:" if k else "") + bad[0][0], f"{what}, rank {r}: {bad[0][1]}")]
        return []
    def shrink(self, c):
        if c["feats"]: yield dict(c, feats=[])
        if c["off"]: yield dict(c, off=None)
        if c["late"]: yield dict(c, late=False)
        if c["lb"] is not None: yield dict(c, lb=None)
        for g in c["coll"]:
            if len(c["coll"]) > 1: yield dict(c, coll=[g])
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]))
PROP = P22()
