"""Scenario building blocks shared by the properties: configurations, seeded particle populations, partition seam, observations."""
from __future__ import annotations
import hashlib, os, sys
import numpy as np

C0 = 299792458.0
DX = 1.0e-7

def base_imports():
    """Imports the system under test once, in the zygote."""
    from loguru import logger
    from mpi4py import MPI  # noqa
    from . import simlib
    simlib.L.sim_mpi_prepare()
    import lambdapic
    import lambdapic.core.utils.logger as L
    logger.remove()
    install_partition_seam()
    # the banner, progress bar and timers log from every rank: keep the sinks off (output only)
    real = L.configure_logger
    import lambdapic.simulation.simulation as S
    def quiet(*a, **k):
        if k.get("sink") is not None or (a and a[0] is not None):
            return real(*a, **k)
        logger.remove()
    if hasattr(S, "configure_logger"): S.configure_logger = quiet
    import importlib
    if os.environ.get("DST_DEBUG"):   # show what the rank that aborts the job died of
        import lambdapic.core.mpi.utils as MU, traceback
        MU.print = lambda *a, **k: traceback.print_exc()
    for m in ("hdf5", "utils", "restart", "laser"): importlib.import_module("lambdapic.callback." + m)

# ------------------------------------------------------------------ METIS seam
PARTITION = {"mode": "metis", "seed": 0, "calls": 0}
def install_partition_seam():
    """The graph partitioner is an external library: the simulator may answer for it with any assignment that leaves no rank empty."""
    import pymetis
    real = pymetis.part_graph
    if getattr(real, "_dst", False): return
    def part_graph(nparts, adjacency=None, *a, **k):
        PARTITION["calls"] += 1
        mode = PARTITION["mode"]
        n = len(adjacency) if adjacency is not None else 0
        if mode == "metis" or n < nparts:
            return real(nparts, adjacency, *a, **k)
        rng = np.random.default_rng([PARTITION["seed"], PARTITION["calls"]])
        if mode == "random": r = rng.integers(0, nparts, n)
        elif mode == "skew": r = np.where(rng.random(n) < 0.75, rng.integers(0, nparts), rng.integers(0, nparts, n))
        elif mode == "roundrobin": r = np.arange(n) % nparts
        else: r = np.arange(n) * nparts // n
        r = np.asarray(r, dtype=int)
        slots = rng.permutation(n)[:nparts]
        for k_, s in enumerate(slots): r[s] = k_
        return 0, r.tolist()
    part_graph._dst = True
    pymetis.part_graph = part_graph

# ------------------------------------------------------------------ configurations
def gen_grid(rng, dim=None, maxcells=None, min_nc=None, ranks=None):
    """A random patch grid and rank count."""
    dim = dim or rng.choice([2, 2, 2, 3])
    if dim == 2:
        np_ = [rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3, 4])]
        nc = [rng.choice([4, 5, 6, 8]), rng.choice([4, 5, 6, 7])]
    else:
        np_ = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 2])]
        nc = [rng.choice([4, 5]), rng.choice([4, 5]), rng.choice([4, 6])]
    while np.prod(np_) < 2: np_[rng.randrange(dim)] += 1
    if min_nc: nc = [max(min_nc, n) for n in nc]
    npat = int(np.prod(np_))
    nr = min(ranks or rng.choice([2, 2, 3, 3, 4, 5]), npat)
    return dict(dim=dim, np=np_, nc=nc, nranks=nr)

def gen_sched(rng, extra=()):
    """Swarm-style schedule intensities: every run emphasises different nondeterminism."""
    s = dict(sched=rng.choice([0.0, 0.02, 0.1, 0.3, 0.6]), delay=rng.choice([0.0, 0.2, 0.5, 0.9]), delaymax=rng.choice([1, 8, 64, 400]),
             rdv=rng.choice([0.0, 0.3, 1.0]), lazy=rng.choice([0.0, 0.3, 1.0]), coll=rng.choice([0.0, 0.3, 0.8]))
    if rng.random() < 0.3: s["stall"] = rng.choice([0.002, 0.01])
    s["omp"] = rng.choice([0.0, 0.5])
    return s

def bc_of(cfg):
    ax = "xyz"[:cfg["dim"]]
    out = {}
    for a, b in zip(ax, cfg["bc"]):
        out[a + "min"] = out[a + "max"] = "periodic" if b == "p" else "pml"
    return out

def make_sim(cfg, comm=None, cls=None, **over):
    """The Simulation object of a configuration (not initialised)."""
    from lambdapic import Simulation, Simulation3D
    dim = cfg["dim"]; d = cfg.get("dx", [DX] * dim)
    import lambdapic.core.species as _sp
    getattr(_sp, "_ALL_SPECIES", []).clear()   # the zygote's warm-up species are not part of this process's script
    PARTITION.update(mode=cfg.get("part", "metis"), seed=cfg.get("pseed", 0), calls=0)
    kw = dict(nx=cfg["np"][0] * cfg["nc"][0], ny=cfg["np"][1] * cfg["nc"][1], dx=d[0], dy=d[1], npatch_x=cfg["np"][0], npatch_y=cfg["np"][1],
              boundary_conditions=bc_of(cfg), cpml_thickness=cfg.get("cpml", 2), random_seed=cfg.get("rseed", 7), dt_cfl=cfg.get("cfl", 0.95))
    if "ng" in cfg: kw["n_guard"] = cfg["ng"]
    if dim == 3: kw.update(nz=cfg["np"][2] * cfg["nc"][2], dz=d[2], npatch_z=cfg["np"][2])
    if cfg.get("mask"):   # irregular domain: these patches do not exist
        from lambdapic.simulation._mask_simulation import _MaskSimulation
        gone = {tuple(m) for m in cfg["mask"]}; (Lx, Ly), _ = box(cfg); cls = _MaskSimulation
        kw["mask"] = lambda x, y: (int(x / Lx * cfg["np"][0]), int(y / Ly * cfg["np"][1])) not in gone
    if cfg.get("auto"): kw.update({f"npatch_{a}": 0 for a in "xyz"[:dim]})   # the simulation chooses the patches itself
    kw.update(over)
    return (cls or (Simulation if dim == 2 else Simulation3D))(comm=comm, **kw)

def ppc_fn(dim):
    from . import profiles
    return profiles.ppc2 if dim == 2 else profiles.ppc3

def make_species(cfg):
    from lambdapic import Electron, Proton, Photon, Species, Positron
    out = []; ppc = ppc_fn(cfg["dim"])
    for s in cfg.get("species", []):
        k = s["kind"]; kw = dict(ppc=ppc)
        if s.get("name"): kw["name"] = s["name"]
        if s.get("dens"):
            from . import profiles
            d = cfg["dim"]; kw["density"] = getattr(profiles, f"{s['dens']}{d}"); kw["density_min"] = float(s.get("dmin", 0))
            if s["dens"] == "bump": kw["ppc"] = getattr(profiles, f"vppc{d}")
        if s.get("pol"): kw["polarization"] = (0.0, 0.0, 1.0)
        if k == "electron": sp = Electron(radiation="photons" if s.get("rad") is not None else None, **kw)
        elif k == "positron": sp = Positron(radiation="photons" if s.get("rad") is not None else None, **kw)
        elif k == "proton": sp = Proton(**kw)
        elif k == "photon": sp = Photon(**kw)
        else: sp = Species(charge=s.get("charge", 1), mass=s.get("mass", 10.0), **{"name": "ion", **kw})
        out.append(sp)
    for s, sp in zip(cfg.get("species", []), out):
        if s.get("rad") is not None: sp.set_photon(out[s["rad"]])
        if s.get("bw"): sp.set_bw_pair(electron=out[s["bw"][0]], positron=out[s["bw"][1]])
    return out

def box(cfg):
    dim = cfg["dim"]; d = cfg.get("dx", [DX] * dim)
    L = [cfg["np"][i] * cfg["nc"][i] * d[i] for i in range(dim)]
    return L, d

def population(cfg, ispec):
    """Seeded global particle list of one species: positions inside the domain, identity carried by unique weights."""
    s = cfg["species"][ispec]; n = s["n"]; dim = cfg["dim"]
    rng = np.random.default_rng([cfg.get("popseed", 1), ispec])
    L, d = box(cfg)
    lo = np.zeros(dim); hi = np.array(L)
    for i, b in enumerate(cfg["bc"]):
        if b != "p":   # keep clear of the absorbing layers, where particles are removed
            t = cfg.get("cpml", 2) * d[i]
            lo[i] += t; hi[i] -= t
    pos = np.empty((3, n)); pos[:] = 0.0
    for i in range(dim):
        if s.get("clump"): u = rng.beta(1.2, s["clump"], n)
        else: u = rng.random(n)
        pos[i] = -d[i] / 2 + lo[i] + u * (hi[i] - lo[i])
        # exact cell and patch boundaries are the interesting places
        k = rng.random(n) < s.get("edge", 0.15)
        cell = np.floor((pos[i] + d[i] / 2) / d[i])
        pos[i] = np.where(k, (cell - 0.5 + 1e-9) * d[i], pos[i])
        pos[i] = np.clip(pos[i], lo[i] - d[i] / 2 * (1 - 1e-9), hi[i] - d[i] / 2 - 1e-6 * d[i])
    um = s.get("u", 1.0)
    u = rng.normal(0, um, (3, n)) if um else np.zeros((3, n))
    if s.get("drift"): u += np.array(s["drift"])[:, None]
    w = (ispec + 1) * 1e6 + np.arange(n) + 1.0
    return pos, u, w * s.get("wscale", 1.0)

def place_population(sim, cfg):
    """Distributes the population to the patches of this rank, by position."""
    dim = cfg["dim"]
    for ispec, s in enumerate(cfg.get("species", [])):
        pos, u, w = population(cfg, ispec)
        photon = s["kind"] == "photon"
        for p in sim.patches:
            m = np.ones(w.size, bool)
            for i, a in enumerate("xyz"[:dim]):
                c0 = (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0))[i]; d = (p.dx, p.dy, getattr(p, "dz", 1.0))[i]
                n = (p.nx, p.ny, getattr(p, "nz", 1))[i]
                cell = np.floor(pos[i] / d + 0.5).astype(int)
                m &= (cell >= c0 * n) & (cell < (c0 + 1) * n)
            put_particles(p.particles[ispec], pos[:, m], u[:, m], w[m], photon, dim, ispec)
            fix_edges(p, p.particles[ispec], dim)

def fix_edges(p, part, dim):
    """Rounding at a patch edge: keep a particle inside the half-open cell range of the patch that owns it."""
    for i, a in enumerate("xyz"[:dim]):
        x = getattr(part, a); d = (p.dx, p.dy, getattr(p, "dz", 1.0))[i]
        lo = (p.x0, p.y0, getattr(p, "z0", 0.0))[i] - d / 2; n = (p.nx, p.ny, getattr(p, "nz", 1))[i]
        x[x <= lo] = lo + 1e-7 * d
        x[x >= lo + n * d] = lo + n * d - 1e-7 * d

def put_particles(part, pos, u, w, photon, dim, ispec):
    part.initialize(w.size)
    part.x[:] = pos[0]; part.y[:] = pos[1]
    if dim == 3: part.z[:] = pos[2]
    part.ux[:], part.uy[:], part.uz[:] = u
    part.w[:] = w
    g2 = u[0] ** 2 + u[1] ** 2 + u[2] ** 2
    part.inv_gamma[:] = 1 / np.sqrt(g2 if photon else 1 + g2)
    for a in part.attrs:   # extra attributes carry a function of identity so that mix-ups show
        if a in ("chi", "delta"): getattr(part, a)[:] = 0.0
        elif a == "tau": getattr(part, a)[:] = 5.0 + (w % 97) * 1e-2
        elif a in ("sx", "sy", "sz"): getattr(part, a)[:] = np.sin(w + ord(a[1]))
    part._npart_alive = w.size

def build(cfg, comm=None, cls=None, add=None, **over):
    """Initialised simulation with its seeded population and random initial fields."""
    sim = make_sim(cfg, comm, cls, **over)
    sp = make_species(cfg)
    if sp: sim.add_species(sp)
    for k in cfg.get("dis", []):
        if k < len(sp): sp[k].disable()
    if add: add(sim, sp)
    sim.initialize()
    finish_build(sim, cfg)
    return sim

def finish_build(sim, cfg):
    if cfg.get("species") and not cfg.get("loaded"): place_population(sim, cfg)
    amp = cfg.get("e0", 0.0)
    if amp: random_fields(sim, cfg, amp)
    if cfg.get("lb") is None: sim.load_balancer.threshold = 1e300
    else: sim.load_balancer.threshold = sim.load_balancer._init_threshold = cfg["lb"]
    sim.update_patches()

def global_field(cfg, attr, seed):
    shape = [cfg["np"][i] * cfg["nc"][i] for i in range(cfg["dim"])]
    return np.random.default_rng([seed, sum(map(ord, attr))]).normal(0, 1, shape)

def patch_slices(p, dim):
    n = (p.nx, p.ny, getattr(p, "nz", 1)); c = (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0))
    return tuple(slice(c[i] * n[i], (c[i] + 1) * n[i]) for i in range(dim)), tuple(slice(0, n[i]) for i in range(dim))

def random_fields(sim, cfg, amp):
    dim = cfg["dim"]
    for a in ("ex", "ey", "ez", "bx", "by", "bz"):
        g = global_field(cfg, a, cfg.get("fseed", 3)) * (amp if a[0] == "e" else amp / C0)
        for p in sim.patches:
            gs, ls = patch_slices(p, dim)
            getattr(p.fields, a)[ls] = g[gs]
    for at in (["ex", "ey", "ez"], ["bx", "by", "bz"]):
        sim.patches.sync_guard_fields(at); sim.mpi.sync_guard_fields(at)

FIELDS = ("ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho")

# ------------------------------------------------------------------ observation
def observe(sim, fields=FIELDS, particles=True, ids=False):
    """State of this rank: {patch index: {...}} with interior fields and the alive particles sorted by identity."""
    dim = sim.dimension; out = {}
    for p in sim.patches:
        _, ls = patch_slices(p, dim)
        d = {"rank": sim.mpi.rank, "prank": p.rank, "c": (p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0)), "f": {a: np.ascontiguousarray(getattr(p.fields, a)[ls]) for a in fields}}
        if particles:
            d["p"] = []
            for part in p.particles:
                al = ~np.asarray(part.is_dead)
                d["p"].append({a: np.asarray(getattr(part, a))[al].copy() for a in part.attrs} | {"slots": int(part.npart)})
        out[p.index] = d
    return out

def merge(values):
    """Joins the observations of all ranks; a patch on two ranks is reported as None key list."""
    out, dup = {}, []
    for v in values:
        for k, d in v.items():
            if k in out: dup.append(k)
            out[k] = d
    return out, dup

def global_array(state, cfg, attr):
    """Assembles the interior of one field over the whole domain."""
    dim = cfg["dim"]; nc = cfg["nc"]; np_ = cfg["np"]
    g = np.full([np_[i] * nc[i] for i in range(dim)], np.nan)
    for idx, d in state.items():
        c = d["c"][:dim]
        g[tuple(slice(c[q] * nc[q], (c[q] + 1) * nc[q]) for q in range(dim))] = d["f"][attr]
    return g

def global_particles(state, ispec):
    """All alive particles of a species, sorted by identity weight, plus the patch that holds each."""
    keys = sorted(state)
    if not keys: return {}
    attrs = [a for a in state[keys[0]]["p"][ispec] if a != "slots"]
    g = {a: np.concatenate([state[k]["p"][ispec][a] for k in keys]) for a in attrs}
    g["patch"] = np.concatenate([np.full(state[k]["p"][ispec]["w"].size, k) for k in keys])
    o = np.lexsort((g["x"], g["w"]))
    return {a: v[o] for a, v in g.items()}

def digest(state):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(state):
        d = state[k]; h.update(f"{k}/{d['rank']}".encode())
        for a in sorted(d["f"]): h.update(d["f"][a].tobytes())
        for part in d.get("p", []):
            for a in sorted(x for x in part if x != "slots"): h.update(np.ascontiguousarray(part[a]).tobytes())
    return h.hexdigest()

def warm_run(cfg, steps=2, **kw):
    """Compiles the numba kernels in the zygote by running a tiny single-rank simulation for real."""
    sim = build(cfg, **kw)
    sim.run(steps)
    return sim

W2 = dict(dim=2, np=[2, 2], nc=[6, 6], bc="pp", species=[dict(kind="electron", n=20)], e0=1e9)
W2P = dict(W2, bc="oo", np=[3, 3])
W3 = dict(dim=3, np=[2, 2, 2], nc=[4, 4, 4], bc="ppp", species=[dict(kind="electron", n=20)], e0=1e9)
W3P = dict(W3, bc="ooo", np=[3, 3, 3])
def warm(*which):
    import time
    for w in which:
        t = time.monotonic()
        warm_run({"2": W2, "2p": W2P, "3": W3, "3p": W3P}[w])
        if os.environ.get("DST_VERBOSE"): print(f"warm {w}: {time.monotonic()-t:.1f}s", file=sys.stderr)

def warm_light():
    """Warm-up for properties that build simulations without running the particle kernels."""
    sim = build(W2); sim3 = build(W3)
    build(W2P); build(W3P)
    for s in (sim, sim3):
        for p in s.patches: p.particles[0].extend(1)
        s.update_lists(); s.patches.sync_guard_fields(["ex"]); s.patches.sync_particles(); s.current_synced = False; s.sync_currents()

def shrink_grid(c):
    """Smaller variants of a grid case."""
    if len(c.get("sets", [])) > 1:
        yield dict(c, sets=c["sets"][:1]); yield dict(c, sets=c["sets"][:-1]); yield dict(c, sets=c["sets"][1:])
    if c.get("omp", 1) > 1: yield dict(c, omp=1)
    if c.get("steps", 1) > 1:
        yield dict(c, steps=1); yield dict(c, steps=c["steps"] // 2); yield dict(c, steps=c["steps"] - 1)
    if c["nranks"] > 2: yield dict(c, nranks=2); yield dict(c, nranks=c["nranks"] - 1)
    for q in ("mask", "dis"):
        if c.get(q): yield {k: v for k, v in c.items() if k != q}
    for q in ("dx", "cfl"):
        if q in c: yield {k: v for k, v in c.items() if k != q}
    for i in range(c["dim"]):
        if c["np"][i] > 1 and not c.get("mask"):
            np_ = list(c["np"]); np_[i] -= 1
            if int(np.prod(np_)) >= c["nranks"] and (c.get('bc', 'ppp')[i] == 'p' or np_[i] >= 2): yield dict(c, np=np_)
    if c.get("faults"):
        for k in range(len(c["faults"])): yield dict(c, faults=c["faults"][:k] + c["faults"][k + 1:])
    for i, s in enumerate(c.get("species", [])):
        if s.get("n", 0) > 4:
            sp = [dict(x) for x in c["species"]]; sp[i]["n"] = max(2, s["n"] // 3); yield dict(c, species=sp)
    sp = c.get("species", [])
    if len(sp) > 1 and not any(s.get("rad") is not None or s.get("bw") for s in sp): yield dict(c, species=sp[:1]); yield dict(c, species=sp[:-1])
    for k in ("stall", "delay", "rdv", "lazy", "coll", "omp", "sched"):
        if c.get("sched", {}).get(k): yield dict(c, sched=dict(c["sched"], **{k: 0.0}))

def fix_grid(c):
    """Open axes need two patches (one absorbing layer per patch and direction) that can hold the layer."""
    for i, b in enumerate(c["bc"]):
        if b != "p": c["np"][i] = max(2, c["np"][i])
        c["nc"][i] = max(c["nc"][i], c.get("cpml", 2) + 1)
    c["nranks"] = max(1, min(c["nranks"], int(np.prod(c["np"]))))
    return c
def add_mask(rng, c, p=0.15):
    """Turns some 2D cases into irregular domains: patches are taken out such that every other one keeps a neighbour in x and in y."""
    if c["dim"] != 2 or rng.random() > p: return c
    c["np"] = [max(3, x) for x in c["np"]]; c["bc"] = "oo"; fix_grid(c)
    there = {(i, j) for i in range(c["np"][0]) for j in range(c["np"][1])}; gone = []
    ok = lambda t: all(((i - 1, j) in t or (i + 1, j) in t) and ((i, j - 1) in t or (i, j + 1) in t) for i, j in t)
    for q in rng.sample(sorted(there), rng.randint(1, 4)):
        if ok(there - {q}) and len(there) - 1 >= c["nranks"]: there.discard(q); gone.append(list(q))
    if gone: c["mask"] = gone
    return c
def valid_grid(c):
    return all(b == "p" or n >= 2 for b, n in zip(c["bc"], c["np"]))

# ------------------------------------------------------------------ full runs
MIX = [[dict(kind="electron")], [dict(kind="electron"), dict(kind="proton")], [dict(kind="electron", pol=True)], [dict(kind="electron"), dict(kind="photon", name="ph")],
       [dict(kind="positron"), dict(kind="ion")], []]
def gen_full(rng, dim=None, steps=(1, 5), nmax=120, ranks=None, open_=True, mix=MIX):
    """A configuration of a complete simulation: grid, partition, populations, fields, steps, schedule."""
    c = gen_grid(rng, dim=dim, ranks=ranks)
    c["bc"] = "".join(rng.choice("ppo" if open_ else "p") for _ in range(c["dim"]))
    if c["dim"] == 3 and c["nc"][2] > 4: c["nc"][2] = 4
    fix_grid(c)
    c["part"] = rng.choice(["random", "random", "metis", "skew", "roundrobin"]); c["pseed"] = rng.randrange(1000)
    c["species"] = [dict(s, n=rng.choice([3, 20, nmax]), u=rng.choice([0.1, 1.0, 5.0]), edge=rng.choice([0.1, 0.5]), wscale=rng.choice([1.0, 1e5]), clump=rng.choice([0, 0, 5])) for s in rng.choice(mix)]
    for k, s in enumerate(c["species"]): s["name"] = f"s{k}"
    c["steps"] = rng.randint(*steps); c["popseed"] = rng.randrange(10**6); c["fseed"] = rng.randrange(1000)
    c["e0"] = rng.choice([0.0, 1e10, 1e12]); c["omp"] = rng.choice([1, 1, 3])
    c["cbs"] = rng.random() < 0.3
    c["sched"] = gen_sched(rng)
    if rng.random() < 0.5: c["dx"] = [DX] + [DX * rng.choice([0.6, 1.0, 1.7, 2.5]) for _ in range(c["dim"] - 1)]   # cells need not be cubes
    if rng.random() < 0.2: c["cfl"] = rng.choice([0.5, 0.8, 0.99])
    return c

def pusher_stage_cbs(cfg, log):
    """Callbacks in the pusher stages switch the step loop to the separate (non-fused) kernels."""
    from lambdapic import callback
    if not cfg.get("cbs"): return []
    def make(stage):
        @callback(stage=stage)
        def cb(sim): log.append((sim.itime, stage, sim.ispec))
        return cb
    return [make(s) for s in ("_push_position_1", "_push_momentum")]

def full_program(rank, cfg, cls=None, add=None, extra=None, fields=FIELDS):
    """build + run + observe; returns (per-step digests, final state)."""
    from lambdapic import callback
    sim = build(cfg, cls=cls, add=add)
    dig, log = [], []
    @callback(stage="end")
    def step_digest(s):
        dig.append(digest(observe(s)))
    cbs = pusher_stage_cbs(cfg, log) + [step_digest] + (extra(sim) if extra else [])
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(dig=dig, state=observe(sim, fields), itime=sim.itime, time=sim.time)

def warm_full():
    """Compiles every kernel that gen_full can reach."""
    for w, p in ((W2, W2P), (W3, W3P)):
        for base, kinds in ((w, [dict(kind="electron", n=6), dict(kind="electron", n=6, pol=True, name="pol"), dict(kind="photon", n=6, name="ph")]), (p, [dict(kind="electron", n=4)])):
            full_program(0, dict(base, species=kinds, steps=2, cbs=False))
            if base is w: full_program(0, dict(base, species=kinds, steps=2, cbs=True))
    warm_light()

def close(a, b, rel, scale=None):
    """Largest deviation of two arrays relative to the scale of the first."""
    if a.shape != b.shape: return np.inf
    if a.size == 0: return 0.0
    s = scale or (float(np.nanmax(np.abs(a))) if not np.isnan(a).all() else 0.0) or 1.0
    n = np.isnan(a) != np.isnan(b)
    if n.any(): return np.inf
    d = np.abs(a - b); d = d[~np.isnan(d)]
    return float(d.max() / s) if d.size else 0.0

def compare_states(cfg, want, got, tol, what, fields=FIELDS, sig=""):
    """Global comparison of two final states, independent of partition; returns a violation or None."""
    from .core import V
    if set(want) != set(got): return V(sig + "patches", f"{what}: patches {sorted(set(want) ^ set(got))} exist in only one of the runs")
    for k, s in enumerate(cfg.get("species", [])):
        a, b = global_particles(want, k), global_particles(got, k)
        if a["w"].size != b["w"].size or not np.array_equal(a["w"], b["w"]):
            u = np.setxor1d(a["w"], b["w"])
            return V(sig + "particles", f"{what}: species {k} holds {b['w'].size} particles, expected {a['w'].size}; e.g. weight {u[:3]} is in only one of them")
        for at in a:
            if at in ("patch", "_id"): continue
            sc = max(box(cfg)[0]) if at in "xyz" else None
            d = close(a[at], b[at], tol, sc)
            if not d <= tol: return V(sig + "particle-state", f"{what}: attribute {at} of species {k} differs by {d:.3g} of its scale (tolerance {tol:g})")
    sc = {}
    for f in fields:
        a, b = global_array(want, cfg, f), global_array(got, cfg, f)
        g = f[0]; m = sc.setdefault(g, max(float(np.nanmax(np.abs(global_array(want, cfg, q)))) for q in fields if q[0] == g))
        d = close(a, b, tol, m or 1.0)
        if not d <= tol: 
            i = np.unravel_index(np.nanargmax(np.abs(a - b)), a.shape) if not np.isinf(d) else None
            return V(sig + "fields", f"{what}: {f} differs by {d:.3g} of its scale at cell {i} (tolerance {tol:g})")
    return None
