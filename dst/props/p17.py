"""P17 moving window: shifting keeps what stays inside, drops what falls behind, brings in fresh plasma, alike on every partition."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

def vel(cfg, sim):
    """The window velocity as the user gives it: a number or a function of time."""
    v = cfg["v"] * scen.C0; k = cfg["vkind"]; dt = sim.dt
    if k == "const": return v
    if k == "flip": return lambda t: v if int(round(t / dt)) < cfg["flip"] else -v
    return lambda t: v * (1 + np.sin(t / dt)) / 2
def vel_at(cfg, it):
    v = cfg["v"]; k = cfg["vkind"]
    if k == "const": return v
    if k == "flip": return v if it < cfg["flip"] else -v
    return v * (1 + np.sin(it)) / 2

def window(cfg, sim):
    from lambdapic.callback.utils import MovingWindow
    return MovingWindow(velocity=vel(cfg, sim), start_time=None if cfg["t0"] is None else max(0, cfg["t0"] - 0.5) * sim.dt, inject_particles=cfg["inject"],
                        stop_inject_time=None if cfg["tstop"] is None else (cfg["tstop"] - 0.5) * sim.dt)

class Judge:
    """What a shift did to the patches of this rank."""
    def __init__(self, cfg, sim): self.cfg, self.bad, self.shifts, self.net, self.moves = cfg, [], {}, 0, []
    def add(self, sig, msg):
        if len(self.bad) < 3: self.bad.append((sig, msg))
    def snap(self, sim):
        out = {}
        for p in sim.patches:
            _, ls = scen.patch_slices(p, sim.dimension)
            out[p.index] = dict(at=(p.ipatch_x, p.ipatch_y, getattr(p, "ipatch_z", 0)), x0=p.x0, f={a: getattr(p.fields, a)[ls].copy() for a in scen.FIELDS},
                                p=[{a: np.asarray(getattr(part, a))[~np.asarray(part.is_dead)].copy() for a in part.attrs} for part in p.particles])
        return out
    def before(self, sim): self.pre = self.snap(sim)
    def after(self, sim):
        from lambdapic.core.boundary.cpml import PMLX
        c = self.cfg; pre, post = self.pre, self.snap(sim); npx = c["np"][0]; it = sim.itime; dim = c["dim"]; L, d = scen.box(c)
        started = it >= (c["t0"] if c["t0"] is not None else np.ceil(L[0] / scen.C0 / sim.dt - 1e-9))
        for p in sim.patches:
            if pre[p.index]["at"][1:] != post[p.index]["at"][1:]: return self.add("sideways", f"step {it} patch {p.index}: moved sideways")
        dirs = set()
        for p in sim.patches:
            a, b = pre[p.index], post[p.index]; i0, i1 = a["at"][0], b["at"][0]; dx0 = round((b["x0"] - a["x0"]) / L[0], 6)
            if i0 == i1 and dx0 == 0: dirs.add(0)
            elif i1 == i0 - 1 and dx0 == 0: dirs.add(1)
            elif i1 == i0 + 1 and dx0 == 0: dirs.add(-1)
            elif i0 == 0 and i1 == npx - 1 and dx0 == 1: dirs.add(1)
            elif i0 == npx - 1 and i1 == 0 and dx0 == -1: dirs.add(-1)
            else: return self.add("relabel", f"step {it} patch {p.index}: column {i0} -> {i1} with its origin moved by {dx0} domain lengths")
        if len(dirs) > 1: return self.add("torn", f"step {it}: patches of one rank shifted by {sorted(dirs)}")
        k = dirs.pop() if dirs else 0; self.net += k; self.moves.append((it, k))
        for p in sim.patches:
            a, b = pre[p.index], post[p.index]; name = f"step {it} patch {p.index}"; _, ls = scen.patch_slices(p, dim)
            want = (b["at"][0] + self.net + c.get("net0", 0)) * c["nc"][0] * d[0]
            if abs(b["x0"] - want) > 1e-6 * d[0]: return self.add("origin", f"{name}: origin at {b['x0']!r} after {self.net} shifts, expected {want!r}")
            ax = b["x0"] + d[0] * np.arange(p.nx); fx = np.asarray(p.fields.xaxis)[:p.nx].ravel()
            if np.abs(np.asarray(p.xaxis) - ax).max() > 1e-6 * d[0] or np.abs(fx - ax).max() > 1e-6 * d[0] or abs(p.fields.x0 - b["x0"]) > 1e-6 * d[0]: return self.add("axis", f"{name}: its axes do not belong to its origin")
            npml = sum(isinstance(q, PMLX) for q in p.pml_boundary)
            if npml and started: return self.add("pml", f"{name}: still has an absorbing layer in x although the window moves")
            fresh = k and (b["at"][0] == (npx - 1 if k > 0 else 0))
            if not fresh:
                for f in scen.FIELDS:
                    if not np.array_equal(a["f"][f], b["f"][f], equal_nan=True): return self.add("kept-fields", f"{name}: {f} changed in a region that stays inside")
                for i, (x, y) in enumerate(zip(a["p"], b["p"])):
                    if any(not np.array_equal(x[q], y[q], equal_nan=True) for q in x): return self.add("kept-particles", f"{name} species {i}: particles changed in a region that stays inside")
                continue
            for f in scen.FIELDS:
                if np.any(b["f"][f]): return self.add("fresh-fields", f"{name}: {f} is not zero in the region that enters")
            for q in p.pml_boundary:   # an absorbing layer has a memory of its own
                for f, x in vars(q).items():
                    if f.startswith("psi") and isinstance(x, np.ndarray) and np.any(x): return self.add("fresh-memory", f"{name}: {f} of an absorbing layer still remembers the region that was left behind")
            inj = c["inject"] and not (c["tstop"] is not None and it >= c["tstop"])
            for i, s in enumerate(c["species"]):
                y = b["p"][i]; n = y["w"].size
                cnt, w = self.expected(p, s) if inj and s.get("dens") else (None, None)
                if cnt is None:
                    if n: return self.add("stale-particles", f"{name} species {i}: {n} particles (at x={y['x'].min():.4g}..{y['x'].max():.4g}) in the region that enters at x={p.x0 - p.dx/2:.4g}..{p.x0 + (p.nx - .5) * p.dx:.4g}, none should")
                    continue
                o = (p.x0, p.y0, getattr(p, "z0", 0.0)); cell = [np.floor((y[q] - o[j]) / d[j] + 0.5).astype(int) for j, q in enumerate("xyz"[:dim])]
                if any((x < 0).any() or (x >= m).any() for x, m in zip(cell, cnt.shape)): return self.add("fresh-outside", f"{name} species {i}: injected particles outside the patch")
                m = np.zeros(cnt.shape, int); np.add.at(m, tuple(cell), 1)
                if not np.array_equal(m, cnt): return self.add("fresh-count", f"{name} species {i}: {n} particles enter, the profile asks for {cnt.sum()}")
                if n and (np.abs(y["w"] - w[tuple(cell)]) > 1e-12 * w.max()).any(): return self.add("fresh-weight", f"{name} species {i}: weights of entering particles do not follow the density profile")
                if any(np.any(y[q]) for q in ("ux", "uy", "uz")) or np.any(y["inv_gamma"] != 1): return self.add("fresh-momentum", f"{name} species {i}: particles enter with momentum")
    def expected(self, p, s):
        from .. import profiles
        dim = self.cfg["dim"]; f = getattr(profiles, f"{s['dens']}{dim}").py_func; pp = (getattr(profiles, f"vppc{dim}") if s["dens"] == "bump" else scen.ppc_fn(dim)).py_func
        ax = [np.asarray(p.xaxis), np.asarray(p.yaxis)] + ([np.asarray(p.zaxis)] if dim == 3 else []); d = (p.dx, p.dy, getattr(p, "dz", 1.0))
        n = np.zeros([len(a) for a in ax], int); w = np.zeros(n.shape)
        for i in np.ndindex(n.shape):
            x = [ax[q][k] for q, k in enumerate(i)]; D = f(*x)
            if D > s.get("dmin", 0) and int(pp(*x)) > 0: n[i] = int(pp(*x)); w[i] = D * np.prod(d[:dim]) / n[i]
        return n, w
    def callbacks(self, win):
        from lambdapic import callback
        @callback(stage="start")
        def before(s): self.before(s)
        @callback(stage="start")
        def after(s): self.after(s)
        return [before, win, after]

def observe(sim, cfg):
    """State addressed by place, not by patch number."""
    out = {}; np_ = cfg["np"]
    for k, d in scen.observe(sim).items():
        p = next(q for q in sim.patches if q.index == k); out[p.ipatch_x + np_[0] * (p.ipatch_y + np_[1] * getattr(p, "ipatch_z", 0))] = d
    return out

def ends(cfg, hist):
    """Who is alive where, at the end of every step."""
    from lambdapic import callback
    @callback(stage="end")
    def end(s):
        rec = []
        for p in s.patches:
            o = (p.x0, p.y0, getattr(p, "z0", 0.0)); d = (p.dx, p.dy, getattr(p, "dz", 1.0)); n = (p.nx, p.ny, getattr(p, "nz", 1))
            for i, part in enumerate(p.particles):
                al = ~np.asarray(part.is_dead); x = np.array([getattr(part, a)[al] for a in "xyz"[:cfg["dim"]]])
                out = np.zeros(x.shape[1], bool)
                for j in range(cfg["dim"]): r = (x[j] - o[j]) / d[j] + 0.5; out |= ~((r > -1e-6) & (r < n[j] + 1e-6))
                rec.append((p.index, i, part._id[al].view(np.uint64).copy(), x, int(out.sum())))
            if not all(np.isfinite(getattr(p.fields, f)).all() for f in scen.FIELDS): rec.append((p.index, -1, None, None, 1))
        hist.append((s.itime, rec))
    return end

def program(rank, cfg, root):
    sim = scen.build(cfg); j = Judge(cfg, sim); rec = {}; log = []; hist = []; got = []
    from lambdapic import callback
    from lambdapic.callback.utils import get_fields
    @callback(stage="end")
    def gather(s):
        if s.itime == cfg["steps"] - 1: got.append(get_fields(s, ["ey", "rho"], **({"slice_at": 0.0} if cfg["dim"] == 3 else {})))
    cbs = j.callbacks(window(cfg, sim)) + mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log) + [ends(cfg, hist), gather]
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(bad=j.bad, moves=j.moves, hist=hist, state=observe(sim, cfg), got=got[0] if got else None, dens={k: cb.density for k, cb in rec.get("extract", {}).items()} if rank == 0 else {}, dt=sim.dt, time=sim.time, q=sim.species[0].q)

def resumed(rank, cfg, ckpt, net0):
    from lambdapic.callback.restart import RestartDump
    sim = RestartDump.load(ckpt); j = Judge(dict(cfg, net0=net0), sim); hist = []; log = []
    sim.run(nsteps=cfg["steps"] - sim.itime, callbacks=j.callbacks(window(cfg, sim)) + mix.make(sim, cfg, [f for f in cfg["feats"] if f["f"] == "laser"], "/nonexistent", {}) + scen.pusher_stage_cbs(cfg, log) + [ends(cfg, hist)])
    return dict(bad=j.bad, moves=j.moves, hist=hist, state=observe(sim, cfg))

class P17(Prop):
    id = "P17"; quick_s = 28.0
    rule = "A case draws a simulation on 1-5 ranks with a moving window (velocity, start, injection, stop of injection; forward, backward, varying), populations, profiles, load balancing, lasers, diagnostics and checkpoints; each shift is judged patch by patch, the particles step by step, and the end against a single rank; a fresh job may continue from a checkpoint."
    assumptions = ["The boundaries along the window are open (a window does not move along a periodic axis).", "Injected positions are random per rank: the comparison with a single rank is for cases without injection, injected particles are judged against the profile."]
    def warm(self):
        from .p08 import warm_restart
        scen.warm_full(); warm_restart()
        for dim in (2, 3):
            for cbs in (False, True):
                c = self.case(__import__("random").Random(5), dim); c.update(nranks=1, cbs=cbs, steps=3, t0=1, inject=True, species=[dict(kind="electron", n=5, name="a", dens="bump", dmin=0), dict(kind="proton", n=5, name="b", dens="flat", dmin=0)], feats=[dict(f="laser", g=False), dict(f="laser", g=True)])
                program(0, c, "/nonexistent")
    def case(self, rng, dim=None):
        c = scen.gen_full(rng, dim=dim or rng.choice([None, 3]), nmax=60, mix=[m for m in scen.MIX if m])
        c["np"][0] = rng.choice([2, 3, 3, 4]); c["nc"][0] = rng.choice([4, 4, 5]); c["bc"] = "o" + c["bc"][1:]; scen.fix_grid(c)
        c["nranks"] = min(c["nranks"], int(np.prod(c["np"])))
        for s in c["species"]:
            if rng.random() < 0.65: s["dens"] = rng.choice(["flat", "bump", "bump"]); s["dmin"] = rng.choice([0, 0, 2.4e25]) if s["dens"] == "bump" else 0
        c["v"] = rng.choice([1.0, 1.0, 0.7, -1.0]); c["vkind"] = rng.choice(["const", "const", "const", "flip", "wave"]); c["flip"] = rng.randint(2, 12)
        c["t0"] = rng.choice([0, 0, 0, 1, 1, 3, 6, None]); c["inject"] = rng.random() < 0.65; c["tstop"] = rng.choice([None, None, 0, 6, 9])
        c["steps"] = rng.randint(4, 22) if c["t0"] is not None or rng.random() < 0.5 else rng.randint(16, 30)
        c["lb"] = rng.choice([None, None, 1e-6, 0.2]); c["cbs"] = rng.random() < 0.4; c["feats"] = []
        return c
    def gen(self, rng, tier, i):
        c = self.case(rng)
        if rng.random() < 0.15: c["nranks"] = 1
        if rng.random() < 0.35: c["feats"].append(dict(f="ckpt", iv=rng.choice([2, 3, 5]), keep=None)); c["pick"] = rng.random()
        if rng.random() < 0.3: c["nc"][0] = 6; c["feats"] += mix.gen_feats(rng, c, n=1, kinds=["laser"])   # ends when the window starts
        if any(f["f"] == "ckpt" for f in c["feats"]) and tier == "quick":   # a restarted job compiles its profiles again, which takes seconds
            for s in c["species"]: s.pop("dens", None)
        if rng.random() < 0.4 and not any(s["kind"] == "photon" for s in c["species"]): c["feats"].append(dict(f="extract", iv=1, s=rng.randrange(len(c["species"])), slice=None))
        return c
    def inside(self, c, vals, what):
        """Judgement of every rank, equal shifts, and the window's path."""
        for r, x in enumerate(vals):
            if x["bad"]: return [V(x["bad"][0][0], f"{what}, rank {r}: {x['bad'][0][1]}")]
        if any(x["moves"] != vals[0]["moves"] for x in vals): return [V("ranks-differ", f"{what}: the ranks do not shift in the same steps")]
        prev = None
        for k in range(len(vals[0]["hist"])):
            ids = {}
            for x in vals:
                it, rec = x["hist"][k]
                for ip, i, id_, pos, out in rec:
                    if i < 0: return [V("not-finite", f"{what}, step {it}: fields of patch {ip} are not finite")]
                    if out: return [V("astray", f"{what}, step {it}: {out} particle(s) of species {i} lie outside patch {ip} that holds them")]
                    ids.setdefault(i, []).append(id_)
            for i in ids:
                a = np.concatenate(ids[i])
                if np.unique(a).size != a.size: return [V("duplicate", f"{what}, step {it}: species {i} has {a.size - np.unique(a).size} duplicate ids")]
        return []
    def path(self, c, moves, dt):
        L, d = scen.box(c); Lp = c["nc"][0] * d[0]; nom = 0.0; pos = 0.0; first = None
        for it, k in moves:
            t0 = c["t0"] if c["t0"] is not None else L[0] / scen.C0 / dt
            if it < t0 - 1e-6:
                if k: return [V("early", f"the window moves in step {it}, before its start")]
                continue
            pos += k * Lp; nom += vel_at(c, it) * scen.C0 * dt
            if not -0.01 * Lp <= pos - nom <= 2.01 * Lp: return [V("path", f"step {it}: the window has moved by {pos / Lp:.0f} patches, its velocity amounts to {nom / Lp:.2f}")]
        return []
    def execute(self, c, ctx):
        root = ctx.dir(); c = dict(c)
        o = ctx.run(program, c["nranks"], args=(c, root), name="run")
        v = outcome_violations(o, what="run with moving window")
        if v: return v
        vals = o.values(); v = self.inside(c, vals, "run") or self.path(c, vals[0]["moves"], vals[0]["dt"])
        if v: return v
        A, dup = scen.merge([x["state"] for x in vals])
        if dup: return [V("patches", f"places {dup} held twice")]
        if c["steps"]:
            for j, f in enumerate(("ey", "rho")):
                g = scen.global_array(A, c, f); g = g[:, :, 0] if c["dim"] == 3 else g; h = vals[0]["got"][j]
                if h.shape != g.shape or (f == "rho" and not np.array_equal(g, h)): return [V("gather", f"gathered {f} is not the field of the window as it stands")]
            for k, f in enumerate(c["feats"]):
                if f["f"] == "extract" and len(c["species"]) == 1 and not c["cbs"]:
                    g = scen.global_array(A, c, "rho"); q = vals[0]["q"]; h = np.asarray(vals[0]["dens"][k]) * q
                    if h.shape != g.shape or not scen.close(g, h, 0) <= 1e-9: return [V("density", "the extracted density is not that of the window as it stands")]
        plain = not any(s.get("dens") for s in c["species"]) or not c["inject"]
        if plain and c["nranks"] > 1:
            o = ctx.run(program, 1, args=(dict(c, nranks=1, omp=1, feats=[f for f in c["feats"] if f["f"] == "laser"], lb=None), root), sched={}, omp=1, name="single")
            v = outcome_violations(o, what="single-rank run")
            if v: return v
            one = o.values()
            v = self.inside(c, one, "single-rank run")
            if v: return v
            if one[0]["moves"] != vals[0]["moves"]: return [V("ranks-differ", "a single rank shifts in other steps")]
            w = scen.compare_states(c, one[0]["state"], A, 1e-9, "single-rank and partitioned run", sig="partition:")
            if w: return [w]
        ck = [(k, f) for k, f in enumerate(c["feats"]) if f["f"] == "ckpt"]
        if ck:
            d = os.path.join(root, f"f{ck[0][0]}"); names = sorted(x for x in os.listdir(d) if x.startswith("ckpt_"))
            if names:
                nm = names[int(c["pick"] * len(names))]; it = int(nm[5:])
                o = ctx.run(resumed, c["nranks"], args=(c, os.path.join(d, nm), sum(k for t, k in vals[0]["moves"] if t <= it)), name="restarted")
                v = outcome_violations(o, what="restarted run")
                if v: return v
                rv = o.values(); v = self.inside(c, rv, "restarted run")
                if v: return [V("restart:" + x["sig"], x["msg"]) for x in v]
                want = [m for m in vals[0]["moves"] if m[0] > it]
                if rv[0]["moves"] != want: return [V("restart:moves", f"continued from step {it}, the window shifts in steps {[t for t, k in rv[0]['moves'] if k]}, uninterrupted in {[t for t, k in want if k]}")]
                if plain:
                    B, _ = scen.merge([x["state"] for x in rv]); w = scen.compare_states(c, A, B, 1e-9, "uninterrupted and restarted run", sig="restart:")
                    if w: return [w]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["lb"] is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        if c["vkind"] != "const": yield dict(c, vkind="const")
        if c["t0"] != 0: yield dict(c, t0=0)
        if c["tstop"] is not None: yield dict(c, tstop=None)
        for k, s in enumerate(c["species"]):
            if s.get("dens"): sp = [dict(x) for x in c["species"]]; sp[k].pop("dens"); yield dict(c, species=sp)
        yield from (x for x in scen.shrink_grid(c) if x["bc"][0] == "o" and x["np"][0] >= 2 and len(x["species"]) == len(c["species"]))
PROP = P17()
