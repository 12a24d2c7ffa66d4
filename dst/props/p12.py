"""P12 particle dump and load: the file holds every alive particle exactly once with its own values; loading it recreates the population."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

PHYS2 = ["x", "y", "w", "ux", "uy", "uz", "inv_gamma"]
def alive(sim, ispec, attrs):
    """Alive particles of this rank with ids, as rows."""
    rows = []
    for p in sim.patches:
        part = p.particles[ispec]; m = ~np.asarray(part.is_dead)
        rows.append(np.array([np.asarray(getattr(part, a))[m] for a in attrs] + [part.id[m].astype(np.uint64).view(np.float64)]))
    return np.concatenate(rows, axis=1) if rows else np.zeros((len(attrs) + 1, 0))

def dump_program(rank, cfg, root):
    from lambdapic import callback
    H = mix.mods()[0]
    sim = scen.build(cfg); truth = []
    attrs = PHYS2 + (["z"] if cfg["dim"] == 3 else [])
    iv = mix.mk_interval(cfg["iv"], sim)
    full_attrs = [list(p.particles[cfg["target"]].attrs) for p in sim.patches]
    @callback(stage="end", interval=iv)
    def t(s): truth.append((s.itime, s.time, alive(s, cfg["target"], attrs)))
    cb = H.SaveParticlesToHDF5(sim.species[cfg["target"]], os.path.join(root, "d"), interval=iv, attrs=list(cfg["attrs"]) if cfg["attrs"] else None)
    sim.run(nsteps=cfg["steps"], callbacks=[t, cb])
    same = full_attrs == [list(p.particles[cfg["target"]].attrs) for p in sim.patches]
    return dict(truth=truth, attrs=attrs, full=full_attrs[0], same=same)

def load_program(rank, cfg, path):
    from lambdapic import callback
    U = mix.mods()[1]; k = cfg["target"]
    c = dict(cfg, species=[dict(s, n=cfg["pre"], wscale=s["wscale"] * 1.001) for s in cfg["species"]], popseed=cfg["popseed"] + 7)
    sim = scen.build(c)
    attrs = [a for a in sim.patches[0].particles[k].attrs if a != "_id"]
    others = lambda s: [alive(s, j, ["x", "y", "ux", "w"]) for j in range(len(s.species)) if j != k]
    before = (alive(sim, k, attrs), others(sim)); got = []
    @callback(stage="start")
    def t(s):
        if s.itime == 0:
            got.append(alive(s, k, attrs)); got.append(all(np.array_equal(a, b) for a, b in zip(before[1], others(s))))
            off = [0.0]   # how far outside its patch a particle lies, in cells
            for p in s.patches:
                part = p.particles[k]; m = ~np.asarray(part.is_dead)
                for i, a in enumerate("xyz"[:s.dimension]):
                    d = (p.dx, p.dy, getattr(p, "dz", 1.0))[i]; n = (p.nx, p.ny, getattr(p, "nz", 1))[i]
                    q = (np.asarray(getattr(part, a))[m] - (p.x0, p.y0, getattr(p, "z0", 0.0))[i]) / d + 0.5; off.append(float(max(-q.min(), q.max() - n)) if q.size else 0.0)
            got.append(max(off))
    ld = U.LoadParticles(sim.species[k], path)
    ld._batch_size = cfg["batch"]
    sim.run(nsteps=cfg["after"], callbacks=[ld, t])
    rows = got[0]; old = np.isin(rows[-1].view(np.uint64), before[0][-1].view(np.uint64)); kept = rows[:, old]
    o1, o2 = (np.argsort(x[-1].view(np.uint64), kind="stable") for x in (kept, before[0]))
    same = kept.shape == before[0].shape and bool(((kept[:-1, o1] == before[0][:-1, o2]) | np.isnan(kept[:-1, o1])).all())
    return dict(loaded=rows[:, ~old], others=got[1], off=got[2], same=same, attrs=attrs, end=int(alive(sim, k, ["w"]).shape[1]))

def craft(c, path):
    """A particle file of another origin: any attributes, any order, positions on and beside the borders of cells and patches."""
    import h5py
    rng = np.random.default_rng(c["popseed"]); n = c["craft"]["n"]; L, d = scen.box(c); dim = c["dim"]; data = {}
    for i, a in enumerate("xyz"[:dim]):
        N = c["np"][i] * c["nc"][i]; t = 0 if c["bc"][i] == "p" else c.get("cpml", 2)
        x = ((t + 0.001) + rng.random(n) * (N - 2 * t - 0.002) - 0.5) * d[i]
        edges = []
        for k in range(1, c["np"][i]):
            e = k * c["nc"][i]
            edges += [(e - 0.5) * d[i], k * L[i] / c["np"][i] - d[i] / 2, (k - 1) * L[i] / c["np"][i] + (c["nc"][i] - 1) * d[i] + d[i] / 2]
        edges = [e for e in edges if t + 0.01 < e / d[i] + 0.5 < N - t - 0.01]
        if edges:
            m = rng.random(n) < 0.6; x[m] = rng.choice(edges, m.sum())
            u = rng.integers(-2, 3, n)
            for q in (1, 2): x = np.where(m & (np.abs(u) >= q), np.nextafter(x, np.where(u > 0, np.inf, -np.inf)), x)
        data[a] = x
    data["w"] = np.arange(n) + 0.5
    for a in c["craft"]["attrs"]: data[a] = rng.normal(0, 1, n)
    with h5py.File(path, "w") as h:
        for a, v in data.items(): h.create_dataset(a, data=v)
    return [a for a in data], np.array(list(data.values()))

class P12(Prop):
    id = "P12"; quick_s = 18.0
    stub = Prop.stub + ["file system calls (real files in a scratch directory; every operation is a scheduling point, writes may be short)"]
    rule = "A case draws a simulation on 1-4 ranks that dumps one species at random intervals with any attribute list while every file operation of every rank is a scheduling point; the files are read back and compared with the particles recorded on the ranks; then the last file is loaded by a fresh job on another rank count and batch size, which takes a few steps."
    assumptions = ["Particle positions used for loading are at least 1e-7 cells away from patch edges or exactly on one side of them.", "After loading, particles are compared by their unique weights."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 3), nmax=200, mix=[m for m in scen.MIX if m])
        if rng.random() < 0.1: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["cbs"] = False; c["iv"] = mix.gen_interval(rng)
        c["target"] = rng.randrange(len(c["species"]))
        kind = c["species"][c["target"]]
        c["attrs"] = rng.choice([None, ["x", "y", "w"], ["w", "ux"], ["x", "y", "z", "w", "ux", "uy", "uz"], ["x", "y", "w", "id", "inv_gamma"]])
        if c["dim"] == 2 and c["attrs"] and "z" in c["attrs"]: c["attrs"].remove("z")
        c["sched"]["ioshort"] = rng.choice([0.0, 0.0, 0.2])
        c["load"] = rng.random() < 0.7; c["pre"] = rng.choice([0, 0, 5, 30])
        if c["load"] and rng.random() < 0.4: c["craft"] = dict(n=rng.choice([1, 30, 300]), attrs=rng.sample(["ux", "uy", "uz", "sx", "tau", "inv_gamma", "junk"], rng.randint(0, 5)))
        c["batch"] = rng.choice([1, 7, 50, 10000]); c["lranks"] = rng.randint(1, 4); c["after"] = rng.choice([1, 1, 2])
        return c
    def execute(self, c, ctx):
        import h5py
        root = ctx.dir()
        o = ctx.run(dump_program, c["nranks"], args=(c, root), root=root)
        v = outcome_violations(o, what="run with particle dumps")
        if v: return v
        vals = o.values(); at = vals[0]["attrs"]; name = f"s{c['target']}"
        calls = vals[0]["truth"]; d = os.path.join(root, "d")
        want_files = {f"{name}_particles_{t:06d}.h5" for t, _, _ in calls}
        if set(os.listdir(d)) != want_files: return [V("files", f"files {sorted(os.listdir(d))}, expected {sorted(want_files)}")]
        if not all(v["same"] for v in vals): return [V("attrs-changed", "dumping particles changed the attribute list of the particle store")]
        last = None
        for n, (itime, time, _) in enumerate(calls):
            fn = os.path.join(d, f"{name}_particles_{itime:06d}.h5"); last = (fn, n)
            rows = np.concatenate([v["truth"][n][2] for v in vals], axis=1)
            try:
                with h5py.File(fn, "r") as h: data = {x: h[x][()] for x in h}; meta = dict(h.attrs)
            except Exception as e: return [V("unreadable", f"{fn} cannot be read back: {e}")]
            if meta.get("itime") != itime or meta.get("time") != time: return [V("metadata", f"step {itime}: metadata {meta}")]
            req = [a for a in (c["attrs"] or vals[0]["full"]) if a != "id"]
            if not set(req) <= set(data): return [V("missing-attribute", f"step {itime}: datasets {sorted(data)}, requested {req}")]
            if "id" not in data: return [V("missing-attribute", "no id dataset")]
            if data["id"].size != rows.shape[1]: return [V("count", f"step {itime}: file holds {data['id'].size} particles, {rows.shape[1]} are alive")]
            fid = data["id"].astype(np.uint64); rid = rows[-1].view(np.uint64)
            fo, ro = np.argsort(fid, kind="stable"), np.argsort(rid, kind="stable")
            if not np.array_equal(fid[fo], rid[ro]): return [V("ids", f"step {itime}: {np.setdiff1d(rid, fid).size} alive particle ids are not in the file, {int((fid == 0).sum())} ids are zero")]
            for a in req:
                if a not in at: continue
                x, y = data[a][fo], rows[at.index(a)][ro]
                bad = np.nonzero(~((x == y) | (np.isnan(x) & np.isnan(y))))[0]
                if bad.size: return [V("values", f"step {itime}: {a} of {bad.size} of {x.size} particles differs from what the rank held, e.g. {x[bad[0]]!r} instead of {y[bad[0]]!r}")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        if not c["load"] or last is None or not c.get("craft") and (not {"x", "y", "w"} <= set(c["attrs"] or ["x", "y", "w", "z"]) or (c["dim"] == 3 and c["attrs"] and "z" not in c["attrs"])): return []
        fn, n = last
        rows = np.concatenate([v["truth"][n][2] for v in vals], axis=1)
        names = list(at); have = set(c["attrs"] or vals[0]["full"])
        if c.get("craft"): fn = os.path.join(root, "crafted.h5"); names, rows = craft(c, fn); have = set(names)
        lc = dict(c, nranks=max(1, min(c["lranks"], int(np.prod(c["np"])))), pseed=c["pseed"] + 1)
        l = ctx.run(load_program, lc["nranks"], args=(lc, fn), name="load")
        v = outcome_violations(l, what="job that loads the dump")
        if v: return v
        lv = l.values(); la = lv[0]["attrs"]; got = np.concatenate([x["loaded"] for x in lv], axis=1)
        if not all(x["others"] for x in lv): return [V("load:wrong-species", f"loading into species {c['target']} changed another species")]
        if not all(x["same"] for x in lv): return [V("load:present", "loading changed particles that were there before")]
        gw, rw = got[la.index("w")], rows[names.index("w")]
        go, ro = np.argsort(gw, kind="stable"), np.argsort(rw, kind="stable")
        if gw.size != rw.size or not np.array_equal(gw[go], rw[ro]):
            u, n_ = np.unique(gw, return_counts=True); lost = np.setdiff1d(rw, gw)
            at_ = [[repr(float(rows[names.index(a)][rw == w][0])) for a in "xyz"[:c["dim"]]] for w in (lost if lost.size else u[n_ > 1])[:1]] if {"x", "y"} <= set(names) else ""
            return [V("load:count", f"{gw.size} particles were loaded, the file holds {rw.size}: {lost.size} are missing, {int((n_ > 1).sum())} are there more than once, e.g. the one at {at_}")]
        off = max(x["off"] for x in lv)
        if off > 1e-6: return [V("load:patch", f"a loaded particle lies {off:.3g} cells outside the patch that holds it")]
        for a in la:
            if a == "inv_gamma": continue
            x = got[la.index(a)][go]
            if a not in have:
                if (x != 0).any(): return [V("load:missing-attribute", f"{a} is not in the file and {int((x != 0).sum())} of {x.size} loaded particles got another value than zero, e.g. {x[x != 0][0]!r}")]
            elif a in names and not np.array_equal(x, rows[names.index(a)][ro]): return [V("load:values", f"{a} of loaded particles differs from the file")]
        u2 = sum(got[la.index(a)] ** 2 for a in ("ux", "uy", "uz")); photon = c["species"][c["target"]]["kind"] == "photon"
        ig = got[la.index("inv_gamma")]
        with np.errstate(divide="ignore", invalid="ignore"):
            w = 1 / np.sqrt(u2 + (0 if photon else 1))
            bad = np.nonzero(~(np.abs(ig - w) <= 1e-9 * w) & (u2 + (not photon) > 0))[0]
        if bad.size: return [V("load:inv-gamma", f"a loaded particle has inverse gamma {ig[bad[0]]:.6g}, its momentum gives {w[bad[0]]:.6g}")]
        ids = np.concatenate([x["loaded"][-1] for x in lv]).view(np.uint64)
        if np.unique(ids).size != ids.size: return [V("load:ids", "loaded particles share ids")]
        return []
    def shrink(self, c):
        if c["load"]: yield dict(c, load=False)
        if c.get("craft"):
            yield {k: v for k, v in c.items() if k != "craft"}
            if c["craft"]["n"] > 1: yield dict(c, craft=dict(c["craft"], n=c["craft"]["n"] // 2))
            if c["craft"]["attrs"]: yield dict(c, craft=dict(c["craft"], attrs=[]))
        if c.get("pre"): yield dict(c, pre=0)
        if c["attrs"] is None: yield dict(c, attrs=["x", "y", "w"] + (["z"] if c["dim"] == 3 else []))
        if c["lranks"] > 1: yield dict(c, lranks=1)
        if c["sched"].get("ioshort"): yield dict(c, sched=dict(c["sched"], ioshort=0.0))
        yield from scen.shrink_grid(c)
PROP = P12()
