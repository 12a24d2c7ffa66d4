"""P35 collisions: what pairs of particles do is the Coulomb scattering of the plasma they are in."""
import itertools
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations
from .p32 import ks

C0 = scen.C0; EPS0 = 8.8541878128e-12; H = 6.62607015e-34
LD = np.longdouble
def boost(u, g, beta, gc):
    """Momenta (3, n) with gamma g seen from a frame that moves with beta (3, n)."""
    b2 = (beta * beta).sum(axis=0); bu = (beta * u).sum(axis=0); f = np.where(b2 > 0, (gc - 1) * bu / np.where(b2 > 0, b2, 1), 0) - gc * g
    return u + beta * f
def gam(u): return np.sqrt(1 + (u * u).sum(axis=0))
def dgam(u, v): return ((u - v) * (u + v)).sum(axis=0) / (gam(u) + gam(v))
def kin(u): return (u * u).sum(axis=0) / (1 + gam(u))
def best_of(found, scale):
    """The order of collisions that conserves energy in each (where orders cannot be told apart they make no difference)."""
    x = min(found, key=lambda x: x[0])
    return x if x[0] <= 1e-9 * scale else None

def theory(u1, m1, q1, u2, m2, q2, neff, dt, lnL, invd2):
    """Frame and scattering parameter s of pairs (columns): s is the mean of 1 - cos(angle) for small angles."""
    u1, u2 = u1.astype(LD), u2.astype(LD); g1, g2 = gam(u1), gam(u2); E = m1 * g1 + m2 * g2; P = m1 * u1 + m2 * u2
    du = (m1 * u1 * g2 - m1 * u2 * g1); cr = np.cross(u1.T, u2.T).T * m1   # p1* from the relative velocity: no cancellation
    M2 = m1 ** 2 + m2 ** 2 + 2 * m1 * m2 * (g1 * g2 - (u1 * u2).sum(axis=0)); M = np.sqrt(M2); p = m2 * np.sqrt(np.maximum((du * du).sum(axis=0) - (cr * cr).sum(axis=0), 0)) / M   # in units of c
    gc = E / M; beta = P / E; G1, G2 = np.sqrt(1 + (p / m1) ** 2), np.sqrt(1 + (p / m2) ** 2); e1, e2 = m1 * G1, m2 * G2; qq = abs(q1 * q2)
    with np.errstate(divide="ignore", invalid="ignore"):
        rel = e1 * e2 / p ** 2 + 1
        b0 = qq / (4 * np.pi * EPS0 * C0 ** 2) / (e1 + e2) * rel; bmin = np.maximum(H / (2 * p * C0), b0)
        L = np.full(p.shape, LD(lnL)) if lnL > 0 else np.where(invd2 > 0, np.maximum(2.0, 0.5 * np.log(1 + 1 / (invd2 * bmin ** 2))), 2.0)
        s = neff * dt * L * qq ** 2 / (4 * np.pi * EPS0 ** 2 * C0 ** 4 * m1 * g1 * m2 * g2) * (gc * p * C0) / E * rel ** 2
    return dict(s=s.astype(float), p=p, beta=beta, gc=gc, k1=boost(u1, g1, beta, gc), m1=m1, e=(1e-15 * gc ** 2 * np.maximum(np.sqrt((u1 * u1).sum(axis=0)) * m1, np.sqrt((u2 * u2).sum(axis=0)) * m2) / np.where(p > 0, p, 1)).astype(float))
def angle(T, v, second=False, m=None):
    """sin^2(angle/2) and the azimuth of the deflection, from the momentum after the collision (of the second partner: mirrored)."""
    v = v.astype(LD); k = boost(v, gam(v), T["beta"], T["gc"]) * (m if second else T["m1"]); a = T["k1"] * T["m1"]
    if second: k = -k
    d = k - a; pp = T["p"] ** 2; y = (d * d).sum(axis=0) / (4 * np.where(pp > 0, pp, 1))
    r = np.array([0.36, 0.48, 0.8], LD)[:, None]; e1 = np.cross(a.T, r.T).T; e1 = e1 / np.sqrt((e1 * e1).sum(axis=0)); e2 = np.cross(a.T, e1.T).T / np.where(T["p"] > 0, T["p"], 1)
    return y.astype(float), np.arctan2((d * e2).sum(axis=0).astype(float), (d * e1).sum(axis=0).astype(float))
def uniform_of(s, y):
    """Place of the angle in its distribution: uniform in (0, 1)."""
    a = 0.37 * s - 0.005 * s ** 2 - 0.0064 * s ** 3; B = y * y * (1 - a * a)
    with np.errstate(divide="ignore", invalid="ignore"): u = 2 * y * y / (B + np.sqrt(B * B + 4 * a * a * y * y))
    return np.where(s < 4, u, 1 - y)

class Judge:
    def __init__(self, cfg, rank, pairs): self.cfg, self.rank, self.pairs, self.bad, self.pre = cfg, rank, pairs, [], None; self.out = {p: dict(u=[], phi=[], acc=[]) for p in pairs}; self.cells = self.odd = 0
    def add(self, sig, msg):
        if len(self.bad) < 3: self.bad.append((sig, msg))
    def momenta(self, rng, n, s):
        c = self.cfg; ax = np.array(c["axis"]); d = np.array(c["along"]); r = c["spread"] / s.m * 9.109e-31 if s.m > 1e-30 and rng.random() < 0.5 else c["spread"]
        if c["line"]: u = ax[:, None] * rng.uniform(0.3, 1, n) * rng.choice([-1.0, 1.0], n) * r
        else: u = rng.normal(size=(3, n)) * r
        if s.ispec == c["rest"]: u[:] = 0.0
        if c["drift"]: b = (d * c["drift"] / np.sqrt(1 + c["drift"] ** 2))[:, None]; u = boost(u, gam(u), -b, np.sqrt(1 + c["drift"] ** 2))
        return u
    def before(self, sim):
        cfg = self.cfg; dim = cfg["dim"]; rng = np.random.default_rng([cfg["popseed"], sim.itime, self.rank, 35]); self.pre = {}
        for p in sim.patches:
            for f in ("ex", "ey", "ez", "bx", "by", "bz"): getattr(p.fields, f)[...] = 0.0
            m = [p.nx, p.ny] + ([p.nz] if dim == 3 else []); N = int(np.prod(m)); o = (p.x0, p.y0, getattr(p, "z0", 0.0)); d = (p.dx, p.dy, getattr(p, "dz", 1.0)); vol = np.prod(d[:dim])
            for i, (s, part) in enumerate(zip(sim.patches.species, p.particles)):
                al = np.flatnonzero(~np.asarray(part.is_dead)); n = al.size
                kill = al[rng.random(n) < cfg["holes"]]; part.is_dead[kill] = True; al = np.setdiff1d(al, kill); n = al.size
                k = 2 if (i, i) in self.pairs else 1
                cell = rng.integers(0, N, n) if cfg["crowd"] else rng.permutation((np.arange(n) // k) % N)
                ix = np.unravel_index(cell, m)
                for q in range(dim): np.asarray(getattr(part, "xyz"[q]))[al] = o[q] + d[q] * (ix[q] - 0.5 + 0.02 + 0.96 * rng.random(n))
                u = self.momenta(rng, n, s)
                for q in range(3): np.asarray(getattr(part, ("ux", "uy", "uz")[q]))[al] = u[q]
                part.inv_gamma[al] = 1 / gam(u)
                part.w[al] = cfg["n0"] * vol / k * (rng.choice(cfg["ratio"], n) if len(cfg["ratio"]) > 1 else 1.0)
                self.pre[p.index, i] = self.snap(part, cell, al)
    def snap(self, part, cell=None, al=None):
        al = np.flatnonzero(~np.asarray(part.is_dead)) if al is None else al; ids = part._id[al].view(np.uint64); k = np.argsort(ids)
        return dict(id=ids[k], u=np.array([np.asarray(getattr(part, a))[al][k] for a in ("ux", "uy", "uz")]), w=np.asarray(part.w)[al][k].copy(), cell=None if cell is None else cell[k])
    def screening(self, sim, p, N):
        """Inverse squared screening length per cell, bounded by the distance of the particles."""
        inv = np.zeros(N); dens = np.zeros(N); vol = p.dx * p.dy * (p.dz if self.cfg["dim"] == 3 else 1.0)
        for i, s in enumerate(sim.patches.species):
            a = self.pre.get((p.index, i))
            if a is None or s.q == 0: continue
            W = np.bincount(a["cell"], a["w"], minlength=N); Ws = np.where(W > 0, W, 1)
            mean = [np.bincount(a["cell"], a["w"] * a["u"][q], minlength=N) / Ws for q in range(3)]; u2 = sum((a["u"][q] - mean[q][a["cell"]]) ** 2 for q in range(3))
            kT = np.bincount(a["cell"], a["w"] * u2 / np.sqrt(1 + u2) / 3, minlength=N) / Ws * s.m * C0 ** 2
            with np.errstate(divide="ignore", invalid="ignore"): inv += np.where(W > 0, np.where(kT > 0, W / vol * s.q ** 2 / (EPS0 * kT), np.inf), 0.0)
            dens += W / vol
        return np.minimum(inv, (4 * np.pi * dens / 3) ** (2 / 3))
    def after(self, sim):
        if self.pre is None: return
        pre = self.pre; cfg = self.cfg
        for p in sim.patches:
            N = p.nx * p.ny * (p.nz if cfg["dim"] == 3 else 1); vol = p.dx * p.dy * (p.dz if cfg["dim"] == 3 else 1.0); inv = self.screening(sim, p, N)
            for pair in self.pairs:
                (i, a), (j, b) = [(k, pre[p.index, k]) for k in pair]; si, sj = sim.patches.species[i], sim.patches.species[j]
                post = [self.snap(p.particles[k]) for k in pair]
                if not (np.array_equal(post[0]["id"], a["id"]) and np.array_equal(post[1]["id"], b["id"])): return self.add("population", f"step {sim.itime} patch {p.index}: collisions changed the set of particles")
                na, nb = np.bincount(a["cell"], minlength=N), np.bincount(b["cell"], minlength=N); oa, ob = np.argsort(a["cell"], kind="stable"), np.argsort(b["cell"], kind="stable"); fa, fb = np.concatenate([[0], np.cumsum(na)]), np.concatenate([[0], np.cumsum(nb)])
                I, J, V1, V2, n_eff, cl = [], [], [], [], [], []
                two = np.flatnonzero(na == 2) if i == j else np.flatnonzero((na == 1) & (nb == 1))
                x, y = (oa[fa[two]], oa[fa[two] + 1]) if i == j else (oa[fa[two]], ob[fb[two]])
                groups = [(a["u"][:, x], b["u"][:, y], post[0]["u"][:, x], post[1]["u"][:, y], np.maximum(a["w"][x], b["w"][y]) / vol, two, a["w"][x], b["w"][y])]
                if len(cfg["ratio"]) == 1:
                    many = np.flatnonzero((na >= 3) & (na <= 12)) if i == j else np.flatnonzero((na + nb >= 3) & (na > 0) & (nb > 0) & (na + nb <= 9))
                    rows = []
                    if many.size:   # rounding must not blur what they exchange
                        x, y = (oa[fa[many]], oa[fa[many] + 1]) if i == j else (oa[fa[many]], ob[fb[many]]); T = theory(a["u"][:, x], LD(si.m), si.q, b["u"][:, y], LD(sj.m), sj.q, a["w"][x] / vol, sim.dt, cfg["lnL"], inv[many])
                        with np.errstate(invalid="ignore"): many = many[np.isfinite(T["s"]) & (T["p"] * np.sqrt(0.37 * np.minimum(T["s"], 2)) > 1e-6 * np.maximum(si.m * np.abs(a["u"]).max(), sj.m * np.abs(b["u"]).max()))]
                    for c in many[:150]:
                        A = oa[fa[c]:fa[c + 1]]; B = ob[fb[c]:fb[c + 1]]
                        r = self.intra(a["u"][:, A], post[0]["u"][:, A]) if i == j else self.inter(a["u"][:, A], post[0]["u"][:, A], si.m, b["u"][:, B], post[1]["u"][:, B], sj.m)
                        if r is False: self.odd += 1
                        if not r: continue
                        self.cells += 1; rows += [(q[0], q[1], q[2], q[3], q[4] * a["w"][A[0]] / vol, c) for q in r]
                    if rows: groups.append(tuple(np.array([r[k] for r in rows]).T for k in range(4)) + (np.array([r[4] for r in rows]), np.array([r[5] for r in rows]), None, None))
                for u1, u2, v1, v2, ne, c, w1, w2 in groups:
                    if not u1.shape[1]: continue
                    T = theory(u1, LD(si.m), si.q, u2, LD(sj.m), sj.q, ne, sim.dt, cfg["lnL"], inv[c])
                    h1, h2 = (u1 != v1).any(axis=0), (u2 != v2).any(axis=0); s = T["s"]; al = np.where(s < 4, 0.37 * np.minimum(s, 4), 1)
                    ok = np.isfinite(s) & (T["p"] > 0) & (al > 1e8 * T["e"] ** 2) & (al > 1e-9) & (T["e"] < 1e-5)
                    m = ok & ~h1 & ~h2
                    if m.any(): k = np.flatnonzero(m)[0]; return self.add("none", f"step {sim.itime} patch {p.index}: partners {pair} in cell {int(c[k])} are not deflected at all (s = {s[k]:.3g}); {int(m.sum())} of {int(ok.sum())}")
                    y1, f1 = angle(T, v1); y2, f2 = angle(T, v2, True, LD(sj.m)); y = np.where(h1, y1, y2); f = np.where(h1, f1, f2)
                    E1 = boost(v1.astype(LD), gam(v1.astype(LD)), T["beta"], T["gc"]); dev = np.abs(np.sqrt((E1 * E1).sum(axis=0)) * LD(si.m) / np.where(T["p"] > 0, T["p"], 1) - 1).astype(float)
                    m = ok & h1 & (w1 is not None) & (dev > 1e-7 + 1e2 * T["e"])
                    if m.any(): k = np.flatnonzero(m)[0]; return self.add("elastic", f"step {sim.itime} patch {p.index}: partners {pair} in cell {int(c[k])}: the collision changes the momentum in the centre of mass by {dev[k]:.3g}")
                    o = self.out[pair]; o["u"].append(uniform_of(s, y)[ok]); o["phi"].append((f[ok] / (2 * np.pi)) % 1)
                    if w1 is not None and len(cfg["ratio"]) > 1:
                        heavy = np.where(w1 > w2, h1, h2)[ok]; light = np.where(w1 > w2, h2, h1)[ok]; q = (np.minimum(w1, w2) / np.maximum(w1, w2))[ok]
                        if (~light).any(): return self.add("light", f"step {sim.itime} patch {p.index}: of partners {pair} the one with the smaller weight is not deflected ({int((~light).sum())} of {int(ok.sum())})")
                        o["acc"].append(np.stack([heavy, q])[:, q < 1])
        self.pre = None
    def intra(self, u, v):
        """Which of the n particles of a cell met: all once, of an odd number one of them twice."""
        D = (v - u).T; n = len(D); sc = np.abs(u).max(); left = list(range(n)); rows = []
        if np.abs(D).max() < 1e-7 * sc: return None
        S = np.abs(D[:, None] + D[None]).max(axis=2); np.fill_diagonal(S, np.inf)
        while len(left) > (0 if n % 2 == 0 else 3):
            s = S[np.ix_(left, left)]; k = np.unravel_index(np.argmin(s), s.shape)
            if s[k] > 1e-11 * sc: return False if s[k] > 1e-2 * np.abs(D).max() else None
            x, y = left[k[0]], left[k[1]]; rows.append((u[:, x], u[:, y], v[:, x], v[:, y], float(n if n % 2 else n - 1))); left = [q for q in left if q not in (x, y)]
        if left:
            found = []
            for x, y, z in itertools.permutations(left):      # x meets y, then z
                mid = u[:, x] + (u[:, y] - v[:, y]); found.append((abs(dgam(u[:, x], mid) + dgam(u[:, y], v[:, y])), x, y, z, mid))
            best = best_of(found, kin(u).max())
            if best is None or np.abs(D[left].sum(axis=0)).max() > 1e-11 * sc: return None
            _, x, y, z, mid = best
            rows += [(u[:, x], u[:, y], mid, v[:, y], n / 2), (u[:, z], mid, v[:, z], v[:, x], n / 2)]
        return rows
    def inter(self, u1, v1, m1, u2, v2, m2):
        """Every particle of the larger group meets one of the smaller, which are used equally often."""
        if u1.shape[1] < u2.shape[1]:
            r = self.inter(u2, v2, m2, u1, v1, m1); return r if not r else [(b, a, d, c, w) for a, b, c, d, w in r]
        n1, n2 = u1.shape[1], u2.shape[1]; k = n1 // n2; D1, D2 = m1 * (v1 - u1).T, m2 * (v2 - u2).T; sc = max(np.abs(u1).max() * m1, np.abs(u2).max() * m2); rows = []; free = list(range(n1))
        if k + (n1 % n2 > 0) > 4 or max(np.abs(D1).max(), np.abs(D2).max()) < 1e-7 * sc: return None
        for j in range(n2):
            best = None
            for size in {k, k + (n1 % n2 > 0)}:
                for S in itertools.combinations(free, size):
                    e = np.abs(D1[list(S)].sum(axis=0) + D2[j]).max()
                    if best is None or e < best[0]: best = (e, S)
            if best is None or best[0] > 1e-11 * sc: return False if best is None or best[0] > 1e-2 * max(np.abs(D1).max(), np.abs(D2).max()) else None
            S = best[1]; free = [q for q in free if q not in S]; found = []
            for o in itertools.permutations(S):
                x = u2[:, j]; rr = []; err = 0.0
                for q in o:
                    z = x - D1[q] / m2; err = max(err, abs(m1 * dgam(u1[:, q], v1[:, q]) + m2 * dgam(x, z))); rr.append((u1[:, q], x, v1[:, q], z, n1 / len(S))); x = z
                found.append((err, rr))
            top = best_of(found, max(m1 * kin(u1).max(), m2 * kin(u2).max()))
            if top is None: return None
            rows += top[1]
        return rows
    def callbacks(self):
        from lambdapic import callback
        @callback(stage="maxwell_1")
        def before(s): self.before(s)
        @callback(stage="_push_position_1")
        def after(s): self.after(s)
        return [before, after]

def program(rank, cfg):
    sim = scen.build(cfg, add=lambda sim, sp: sim.add_collision([[sp[i] for i in g] for g in cfg["coll"]]))
    if cfg["lnL"]: sim.collision.lnLambda = cfg["lnL"]
    j = Judge(cfg, rank, [tuple(sorted(g)) for g in cfg["coll"]]); sim.run(nsteps=cfg["steps"], callbacks=j.callbacks())
    return j.bad, {k: {q: (np.concatenate(v, axis=-1) if v else np.zeros((2, 0) if q == "acc" else 0)) for q, v in o.items()} for k, o in j.out.items()}, j.cells, j.odd

class P35(Prop):
    id = "P35"; quick_s = 20.0
    rule = "A case draws charged species, collisions within or between them, weights, densities, temperatures, drifts up to relativistic ones and partners that move along one line or rest, on 1-5 ranks with 1-8 threads and load balancing; before every step particles are put into cells (two, or more, with dead slots between), after the collisions the pairs that met are found from what they exchanged, and every deflection is placed in the distribution that the theory gives for it."
    assumptions = ["Scattering parameter, Coulomb logarithm and distribution are those of the documented paper (Perez et al. 2012, without its low-temperature correction), with the usual fit of the distribution; they are computed independently in extended precision.", "Deflections are judged where rounding leaves them meaningful; cells of three and more partners only with equal weights.", "Distributions are tested at levels that sound draws miss by chance less than once in 1e11."]
    def warm(self):
        scen.warm_full()
        for w in (scen.W2, scen.W3):
            for coll in ([[0, 0]], [[0, 1]]): program(0, dict(w, species=[dict(kind="electron", n=40, name="a"), dict(kind="proton", n=40, name="b")], coll=coll, steps=1, n0=1e24, lnL=0.0, ratio=[1.0], spread=0.1, drift=0.0, axis=[0, 0, 1], along=[1, 0, 0], line=False, rest=None, crowd=False, holes=0.0, popseed=1))
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, mix=[[]]); c["cbs"] = True; c["e0"] = 0.0; c["steps"] = rng.randint(2, 5)
        if c["dim"] == 2: c["nc"] = [rng.choice([x, 12]) for x in c["nc"]]
        scen.fix_grid(c); cells = int(np.prod(c["np"]) * np.prod(c["nc"]))
        kinds = rng.choice([["electron"], ["electron", "proton"], ["electron", "positron"], ["proton", "electron"], ["ion", "electron"], ["electron", "ion", "proton"]])
        c["coll"] = rng.choice([[[0, 0]]] + ([[[0, 1]]] * 3 + [[[0, 0], [1, 1]]] if len(kinds) > 1 else []) + ([[[0, 2], [1, 1]]] if len(kinds) > 2 else []))
        c["species"] = [dict(kind=k, n=cells * rng.choice([1, 2, 2, 3]), u=0.1, edge=0.0, wscale=1.0, clump=0, name=f"s{j}", mass=25.0) for j, k in enumerate(kinds)]
        c["lnL"] = rng.choice([0.0, 0.0, 0.0, 5.0]); c["n0"] = rng.choice([1e22, 1e24, 1e26, 1e28, 1e30]); c["ratio"] = rng.choice([[1.0], [1.0], [1.0, 3.0], [1.0, 0.1, 10.0]])
        c["spread"] = rng.choice([1e-3, 1e-2, 0.1, 1.0, 5.0]); c["drift"] = rng.choice([0.0, 0.0, 0.5, 10.0, 100.0])
        if rng.random() < 0.25: c["lnL"] = 0.0; c["crowd"] = False; c["n0"] = rng.choice([1e16, 1e18, 1e20]); c["spread"] = rng.choice([1e-3, 3e-3]); c["drift"] = rng.choice([0.0, 3.0, 10.0, 30.0])   # close encounters as wide as those of the classical radius
        v = np.array([rng.gauss(0, 1) for _ in range(3)]); c["along"] = (v / np.linalg.norm(v)).tolist()
        e = [0.0, 0.0, 0.0]; e[rng.randrange(3)] = 1.0; c["line"] = rng.random() < 0.35; c["axis"] = e
        if c["line"] and rng.random() < 0.6: c["along"] = e
        c["rest"] = rng.choice([None, None, 0, 1]) if len(kinds) > 1 else None
        c["crowd"] = c.get("crowd", rng.random() < 0.3); c["holes"] = rng.choice([0.0, 0.0, 0.2]); c["lb"] = rng.choice([None, None, 1e-6]); c["omp"] = rng.choice([1, 2, 4, 8])
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="run with collisions")
        if v: return v
        vals = o.values()
        for r, (bad, _, _, _) in enumerate(vals):
            if bad: return [V(bad[0][0], f"rank {r}: {bad[0][1]}")]
        cells, odd = sum(x[2] for x in vals), sum(x[3] for x in vals)
        if odd > 2 + cells / 5: return [V("pairs", f"in {odd} of {cells + odd} cells what the particles exchange is not a set of collisions of pairs")]
        for pair in vals[0][1]:
            u, phi = (np.concatenate([x[1][pair][k] for x in vals]) for k in ("u", "phi")); acc = np.concatenate([x[1][pair]["acc"] for x in vals], axis=1); n = u.size
            what = f"{n} deflections of {'-'.join(c['species'][k]['kind'] for k in pair)} pairs"
            if n > 30:
                D = ks(u); m = -np.log(np.maximum(u, 1e-300)).mean()
                if D * np.sqrt(n) > 4 or abs(m - 1) * np.sqrt(n) > 9: return [V("angle", f"{what} do not follow the distribution of their scattering parameters: D = {D:.3g}, they are {'smaller' if m > 1 else 'larger'} than they should be (mean of -ln {m:.3g}, 1 is right)")]
                D = ks(phi)
                if D * np.sqrt(n) > 4: return [V("azimuth", f"{what} prefer a direction around the line of flight: D = {D:.3g}")]
            if acc.shape[1] > 30:
                z = (acc[0].sum() - acc[1].sum()) / np.sqrt((acc[1] * (1 - acc[1])).sum())
                if abs(z) > 7: return [V("heavy", f"partners with the larger weight are deflected in {acc[0].mean():.3g} of {acc.shape[1]} pairs, it should be {acc[1].mean():.3g}")]
        return []
    def shrink(self, c):
        if c["lb"] is not None: yield dict(c, lb=None)
        if c["holes"]: yield dict(c, holes=0.0)
        if c["crowd"]: yield dict(c, crowd=False)
        if c["drift"]: yield dict(c, drift=0.0)
        if len(c["coll"]) > 1: yield dict(c, coll=c["coll"][:1])
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]))
PROP = P35()
