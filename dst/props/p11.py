"""P11 HDF5 field and density output: the file equals the global array (or its slice), whatever the ranks' write interleaving."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations
from .p13 import density_program

def program(rank, cfg, root):
    from lambdapic import callback
    sim = scen.build(cfg)
    truth = {}; cbs = []
    for k, f in enumerate(cfg["feats"]):
        own = mix.make(sim, cfg, [f], os.path.join(root, f"k{k}"), {})[0]
        if f["f"] == "fields":
            def truth_cb(k=k, own=own, f=f):
                @callback(stage=own.stage, interval=mix.mk_interval(f["iv"], sim))
                def t(s): truth.setdefault(k, []).append((s.itime, s.time, scen.observe(s, f["comps"] or mix.COMPS, particles=False)))
                return t
            cbs.append(truth_cb())
        else:
            def truth_cb(k=k, own=own, f=f):
                @callback(stage="start", interval=mix.mk_interval(f["iv"], sim))
                def t(s): truth.setdefault(k, []).append((s.itime, s.time, None))
                return t
            cbs.append(truth_cb())
        cbs.append(own)
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return truth

def sl(f): return tuple(slice(x, (x + 1) or None) if isinstance(x, int) else slice(*x) for x in f["slice"]) if f["slice"] else Ellipsis

class P11(Prop):
    id = "P11"; quick_s = 18.0
    stub = Prop.stub + ["file system calls (real files in a scratch directory; every open/read/write/truncate is a scheduling point and may be short)"]
    rule = "A case draws a simulation on 1-4 ranks with field and density output (random components, stages, intervals, per-axis slices); every file operation of every rank is a scheduling point, writes may be cut short; each file is then read back in a fresh process and compared cell by cell with what the ranks held."
    assumptions = ["Writes of different processes to one file are sequentially consistent (POSIX local or coherent parallel file system).", "MPI-IO output (mpi=True) is not exercised: the installed h5py is serial."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 3), nmax=40, mix=[m for m in scen.MIX if not any(s["kind"] == "photon" for s in m)])
        scen.add_mask(rng, c)
        if rng.random() < 0.1: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["cbs"] = False
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(1, 2), kinds=["fields", "fields", "density"])
        c["lb"] = rng.choice([None, None, 1e-6, 0.2]); mix.gen_dis(rng, c)
        c["sched"]["ioshort"] = rng.choice([0.0, 0.0, 0.1, 0.4])
        return c
    def execute(self, c, ctx):
        import h5py
        root = ctx.dir()
        o = ctx.run(program, c["nranks"], args=(c, root), root=root)
        v = outcome_violations(o, what="run with output")
        if v: return v
        vals = o.values(); dens = None
        for k, f in enumerate(c["feats"]):
            d = os.path.join(root, f"k{k}", "f0")
            calls = vals[0].get(k, [])
            names = {(f"{t:06d}.h5" if f["f"] == "fields" else f"s{f['s']}_{t:06d}.h5"): n for n, (t, _, _) in enumerate(calls)}
            have = set(os.listdir(d))
            if have != set(names): return [V("files", f"output files {sorted(have)}, expected {sorted(names)}")]
            for name, n in sorted(names.items()):
                itime, time, _ = calls[n]
                try:
                    with h5py.File(os.path.join(d, name), "r") as h:
                        data = {x: h[x][()] for x in h}; attrs = dict(h.attrs)
                except Exception as e: return [V("unreadable", f"{name} cannot be read back: {e}")]
                if attrs.get("itime") != itime or attrs.get("time") != time: return [V("metadata", f"{name}: time {attrs.get('time')} itime {attrs.get('itime')}, written at {time} / {itime}")]
                if f["f"] == "fields":
                    comps = f["comps"] or mix.COMPS
                    if set(data) != set(comps): return [V("components", f"{name} holds {sorted(data)}, requested {sorted(comps)}")]
                    st, _ = scen.merge([v[k][n][2] for v in vals])
                    want = {x: scen.global_array(st, c, x)[sl(f)] for x in comps}; tol = 0.0
                else:
                    if dens is None:
                        r = ctx.run(density_program, 1, args=(dict(c, nranks=1, part="metis"),), benign=True, name="reference", omp=1)
                        v = outcome_violations(r, what="reference")
                        if v: return v
                        dens = {(i, s): g for i, s, g in r.values()[0]}
                        scale = max([float(np.nanmax(np.abs(g))) for g in dens.values()] + [1e-300])
                    want = {"density": dens[(itime, f["s"])][sl(f)]}; tol = 1e-9 * scale
                for x, w in want.items():
                    g = data[x]
                    if g.shape != w.shape: return [V("shape", f"{name}/{x} has shape {g.shape}, the selection {f['slice']} has {w.shape}")]
                    bad = np.argwhere(~(np.abs(g - w) <= tol) & ~(np.isnan(g) & np.isnan(w)))
                    if len(bad): return [V(f"values:{'sliced' if f['slice'] else 'full'}", f"{name}/{x} (slice {f['slice']}): {len(bad)} of {g.size} cells differ, first at {bad[0].tolist()}: file {g[tuple(bad[0])]:.6g}, ranks held {w[tuple(bad[0])]:.6g}")]
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])):
            if len(c["feats"]) > 1: yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
            f = c["feats"][k]
            if f.get("slice"): yield dict(c, feats=c["feats"][:k] + [dict(f, slice=None)] + c["feats"][k + 1:])
            if f.get("comps") and len(f["comps"]) > 1: yield dict(c, feats=c["feats"][:k] + [dict(f, comps=f["comps"][:1])] + c["feats"][k + 1:])
        if c.get("lb") is not None: yield dict(c, lb=None)
        if c["sched"].get("ioshort"): yield dict(c, sched=dict(c["sched"], ioshort=0.0))
        yield from (d for d in scen.shrink_grid(c) if not any(f.get("slice") for f in c["feats"]) or d["np"] == c["np"])
PROP = P11()
