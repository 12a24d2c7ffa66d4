"""P03 particle migration: every particle that crosses a patch boundary arrives exactly once, intact, on the rank that owns its position."""
import numpy as np
from .. import scen
from ..core import Prop, V, outcome_violations

KINDS = [dict(kind="electron"), dict(kind="electron", pol=True), dict(kind="proton"), dict(kind="photon", name="ph"), dict(kind="positron", name="pos")]

def displacement(cfg, ispec, w, rnd):
    """Displacement of the particles with these identities in cells, the same on whatever rank they live."""
    dim = cfg["dim"]; d = scen.box(cfg)[1]
    ident = np.rint(w - (ispec + 1) * 1e6).astype(np.int64)
    table = np.random.default_rng([cfg["mseed"], ispec, rnd]).uniform(-1, 1, (dim, cfg["species"][ispec]["n"] + 2)) * cfg["reach"]
    return [table[i][ident] * d[i] for i in range(dim)]

def nudge(x, d):
    """Keeps a position 1e-7 cells clear of cell boundaries, where rounding decides the side."""
    f = x / d + 0.5; c = np.floor(f); fr = np.clip(f - c, 1e-7, 1 - 1e-7)
    return (c + fr - 0.5) * d

def killed(cfg, w, rnd):
    return np.random.default_rng([cfg["mseed"], 77, rnd]).random(4096)[(np.rint(w).astype(np.int64) % 4096)] < cfg["kill"]

def program(rank, cfg):
    sim = scen.build(cfg); dim = cfg["dim"]; ns = len(cfg["species"])
    snaps = [scen.observe(sim, fields=())]
    for rnd in range(cfg["rounds"]):
        for p in sim.patches:
            for isp in range(ns):
                part = p.particles[isp]; al = np.nonzero(~part.is_dead)[0]
                dx = displacement(cfg, isp, part.w[al], rnd)
                for i, a in enumerate("xyz"[:dim]):
                    x = getattr(part, a); x[al] = nudge(x[al] + dx[i], (sim.dx, sim.dy, getattr(sim, "dz", 1))[i])
                if cfg["kill"]: part.is_dead[al[killed(cfg, part.w[al], rnd)]] = True
                part.ex_part[al] = part.w[al] * (rnd + 1)
        if cfg["mode"] == "overlap":       # the order of the step loop
            sim.current_synced = False; sim.sync_currents_start()
            hs = [sim.mpi.sync_particles_start(i) for i in range(ns)]
            for h in hs: sim.mpi.sync_particles_wait(h)
            sim.patches.sync_particles(); sim.sync_currents_wait()
        elif cfg["mode"] == "reverse":
            hs = [sim.mpi.sync_particles_start(i) for i in range(ns)]
            for h in reversed(hs): sim.mpi.sync_particles_wait(h)
            sim.patches.sync_particles()
        else:
            for i in range(ns): sim.mpi.sync_particles(i)
            sim.patches.sync_particles()
        sim.update_lists()
        if cfg["prune"]:
            for p in sim.patches:
                for part in p.particles: part.prune(0.1)
            sim.update_patches()
        snaps.append(scen.observe(sim, fields=()))
    return snaps

def model_step(cfg, ispec, g, rnd):
    """One round of the reference model on the global particle list."""
    dim = cfg["dim"]; L, d = scen.box(cfg); g = {k: v.copy() for k, v in g.items()}
    dx = displacement(cfg, ispec, g["w"], rnd); alive = ~killed(cfg, g["w"], rnd) if cfg["kill"] else np.ones(g["w"].size, bool)
    patch = np.zeros(g["w"].size, int); mul = 1
    for i, a in enumerate("xyz"[:dim]):
        N = cfg["np"][i] * cfg["nc"][i]; x = nudge(g[a] + dx[i], d[i]); cell = np.floor(x / d[i] + 0.5).astype(int)
        if cfg["bc"][i] == "p":
            x = np.where(cell < 0, x + L[i], np.where(cell >= N, x - L[i], x)); cell %= N
        else:
            t = cfg.get("cpml", 2); alive &= (cell >= t) & (cell < N - t)
        g[a] = x; patch = patch + mul * (cell // cfg["nc"][i]); mul *= cfg["np"][i]
    g["ex_part"] = g["w"] * (rnd + 1); g["patch"] = patch
    return {k: v[alive] for k, v in g.items()}

def compare(cfg, ispec, want, got, what):
    d = min(scen.box(cfg)[1])
    ww, wg = want["w"], got["w"]
    uq, n = np.unique(wg, return_counts=True)
    if (n > 1).any(): return V("duplicated", f"{what}: particle {uq[n > 1][0]:.0f} exists {n[n > 1][0]} times")
    lost = np.setdiff1d(ww, wg); extra = np.setdiff1d(wg, ww)
    if lost.size: k = np.nonzero(ww == lost[0])[0][0]; return V("lost", f"{what}: {lost.size} particle(s) lost, e.g. {lost[0]:.0f} that belongs at {[want[a][k] / d for a in 'xyz'[:cfg['dim']]]} cells in patch {want['patch'][k]}")
    if extra.size: return V("unremoved", f"{what}: {extra.size} particle(s) still present that left the domain or were never created, e.g. {extra[0]:.0f}")
    if not np.array_equal(want["patch"], got["patch"]):
        k = np.nonzero(want["patch"] != got["patch"])[0][0]
        return V("wrong-owner", f"{what}: particle {ww[k]:.0f} is held by patch {got['patch'][k]}, its position belongs to patch {want['patch'][k]}")
    for a in want:
        if a == "patch": continue
        ok = np.abs(want[a] - got[a]) <= 1e-8 * d if a in "xyz"[:cfg["dim"]] else (want[a] == got[a]) | (np.isnan(want[a]) & np.isnan(got[a]))
        if a == "_id": ok = want[a].view(np.uint64) == got[a].view(np.uint64)
        if not ok.all():
            k = np.nonzero(~ok)[0][0]; return V(f"attr-changed", f"{what}: attribute {a} of particle {ww[k]:.0f} is {got[a][k]!r}, was {want[a][k]!r} ({(~ok).sum()} particles)")
    return None

class P03(Prop):
    id = "P03"
    rule = "A case draws a 2D/3D patch grid, boundaries, a partition over 1-5 ranks, species mix and seeded populations; each round moves every particle by less than one cell in each direction (the same displacement wherever it lives), kills a few, and migrates with one of three start/wait orders."
    assumptions = ["Particles move less than one cell per step (CFL).", "Positions stay 1e-7 cells clear of cell boundaries, so that rounding does not decide the owner.", "Every rank owns at least one patch."]
    def warm(self): scen.warm_light()
    def gen(self, rng, tier, i):
        c = scen.gen_grid(rng)
        if rng.random() < 0.08: c["nranks"] = 1
        c["bc"] = "".join(rng.choice("ppo") for _ in range(c["dim"])); scen.fix_grid(c)
        c["part"] = rng.choice(["random", "random", "metis", "skew", "roundrobin"]); c["pseed"] = rng.randrange(1000)
        c["species"] = [dict(rng.choice(KINDS), n=rng.choice([0, 1, 5, 30, 150, 400])) for _ in range(rng.choice([1, 1, 2, 3]))]
        for k, s in enumerate(c["species"]): s["name"] = f"s{k}"; s["edge"] = rng.choice([0.1, 0.6]); s["clump"] = rng.choice([0, 0, 6])
        c["rounds"] = rng.randint(1, 4); c["mseed"] = rng.randrange(10**6); c["popseed"] = rng.randrange(10**6)
        c["reach"] = rng.choice([0.3, 0.97, 0.97]); c["kill"] = rng.choice([0, 0, 0.1]); c["prune"] = rng.random() < 0.15
        c["mode"] = rng.choice(["overlap", "overlap", "reverse", "plain"]); c["omp"] = rng.choice([1, 1, 3])
        c["sched"] = scen.gen_sched(rng)
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c,))
        v = outcome_violations(o, what="particle migration")
        if v: return v
        for isp in range(len(c["species"])):
            want = None
            for rnd in range(-1, c["rounds"]):
                st, dup = scen.merge([r[rnd + 1] for r in o.values()])
                if dup: return [V("patch-duplicated", f"patches {dup} are on two ranks")]
                got = scen.global_particles(st, isp)
                if want is None:
                    want = got
                    if want["w"].size != c["species"][isp]["n"]: return [V("placement", f"population of {c['species'][isp]['n']} placed as {want['w'].size}")]
                    continue
                want = model_step(c, isp, want, rnd)
                e = compare(c, isp, want, got, f"round {rnd} species {isp}")
                if e: return [e]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) were sent but never received")]
        return []
    def shrink(self, c):
        if c["rounds"] > 1: yield dict(c, rounds=1); yield dict(c, rounds=c["rounds"] - 1)
        if c["kill"]: yield dict(c, kill=0)
        if c["prune"]: yield dict(c, prune=False)
        yield from scen.shrink_grid(c)
PROP = P03()
