"""P13 gathered diagnostics: what rank 0 receives from get_fields / density extraction is the global array, slice included."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

def program(rank, cfg, root):
    """Runs with gather callbacks and, right beside each, a plain local record of what this rank owns at that moment."""
    from lambdapic import callback
    sim = scen.build(cfg)
    rec, truth = {}, {}
    feats = cfg["feats"]; cbs = []
    for k, f in enumerate(feats):
        objs = mix.make(sim, cfg, [f], os.path.join(root, f"k{k}"), r := {}); own = objs[-1]; rec[k] = r
        if f["f"] == "plot":
            def truth_cb(k=k, f=f):
                @callback(stage="end", interval=mix.mk_interval(f["iv"], sim))
                def t(s): truth.setdefault(k, []).append((s.itime, scen.observe(s, [x for x, _ in f["what"] if not isinstance(x, int)], particles=False)))
                return t
            cbs += [truth_cb()] + objs
        elif f["f"] == "get":
            def truth_cb(k=k, f=f):
                @callback(stage=f["stage"], interval=mix.mk_interval(f["iv"], sim))
                def t(s): truth.setdefault(k, []).append((s.itime, scen.observe(s, f["comps"], particles=False)))
                return t
            cbs += [truth_cb(), own]
        else:
            class Snap:   # density as extracted, step by step
                stage = own.stage
                def __init__(self, own, k): self.own, self.k = own, k
                def __call__(self, s):
                    if s.ispec != self.own.ispec_target: return
                    truth.setdefault(self.k, []).append((s.itime, self.own.density.copy() if rank == 0 else None))
            cbs += [own, Snap(own, k)]
    sim.run(nsteps=cfg["steps"], callbacks=cbs)
    return dict(rec={k: r.get("get") for k, r in rec.items()}, plot={k: r.get("plot") for k, r in rec.items()}, truth=truth)

def density_program(rank, cfg):
    """The per-species charge density of a single rank, by depositing each species alone (reference)."""
    from lambdapic import callback
    sim = scen.build(cfg); out = []; prev = [None, None]
    dim = cfg["dim"]
    def full():
        g = np.full([cfg["np"][i] * cfg["nc"][i] for i in range(dim)], np.nan if cfg.get("mask") else 0.0)   # no patch, no value
        for p in sim.patches:
            gs, ls = scen.patch_slices(p, dim); g[gs] = p.fields.rho[ls]
        return g
    @callback(stage="current_deposition")
    def cb(s):
        s.sync_currents(); g = full()
        out.append((s.itime, s.ispec, (g - prev[0] if prev[1] == s.itime else g) / s.species[s.ispec].q)); prev[:] = g, s.itime
    sim.run(nsteps=cfg["steps"], callbacks=[cb])
    return out

class P13(Prop):
    id = "P13"; quick_s = 18.0
    rule = "A case draws a simulation on 1-5 ranks and one or two gather diagnostics with random fields, stages, intervals, slice positions or per-axis slices; what rank 0 holds afterwards is compared cell by cell with the patch interiors recorded on every rank at the same moment, and densities with a single-rank reference."
    assumptions = ["Field gathers are compared bitwise, densities to 1e-9 of their maximum (summation order).", "A slice position closer than 1e-6 of a cell to the midpoint between two grid points may use either."]
    def warm(self): scen.warm_full()
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 4), nmax=60, mix=[m for m in scen.MIX if m and not any(s["kind"] == "photon" for s in m)])
        scen.add_mask(rng, c)
        if rng.random() < 0.1: c["nranks"] = 1
        c["cbs"] = False
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(1, 2), kinds=["get", "get", "extract", "extract", "plot"]); c["lb"] = rng.choice([None, None, 1e-6, 0.2])
        for f in c["feats"]:
            if f["f"] == "get" and c["dim"] == 3:
                k = rng.random()
                if k < 0.35: pass
                elif k < 0.5: f["at"] = scen.box(c)[0][2] * rng.choice([0.0, 0.5, 1.0])
                else: f["at"] = rng.random() * scen.box(c)[0][2]
        mix.gen_dis(rng, c)
        return c
    def execute(self, c, ctx):
        o = ctx.run(program, c["nranks"], args=(c, ctx.dir()))
        v = outcome_violations(o, what="run with gathers")
        if v: return v
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        vals = o.values(); dens = None
        for k, f in enumerate(c["feats"]):
            if f["f"] != "get" and dens is None:
                d = ctx.run(density_program, 1, args=(dict(c, nranks=1, part="metis", lb=None),), benign=True, name="reference", omp=1)
                v = outcome_violations(d, what="reference")
                if v: return v
                dens = {(i, s): g for i, s, g in d.values()[0]}
                scale = max([float(np.nanmax(np.abs(g))) for g in dens.values()] + [1e-300])
            if f["f"] == "plot":
                tr = vals[0]["truth"].get(k, []); got = [vals[r]["plot"][k] or [] for r in range(c["nranks"])]
                if any(got[1:]): return [V("plot:nonroot", "a rank other than 0 draws")]
                want = [f"fields_{t:06d}.png" for t, _ in tr]
                if [g[1] for g in got[0]] != want: return [V("plot:files", f"pictures {[g[1] for g in got[0]]}, asked for {want}")]
                what = [x for x in f["what"] if not isinstance(x[0], int)] + [x for x in f["what"] if isinstance(x[0], int)]
                L = scen.box(c)[0]
                for n, (_, name, pics) in enumerate(got[0]):
                    st, _ = scen.merge([v["truth"][k][n][1] for v in vals]); t = tr[n][0]
                    if len(pics) != len(what): return [V("plot:layers", f"{name}: {len(pics)} layers for {len(what)} fields")]
                    for (x, sc), (a, ext, org) in zip(what, pics):
                        if isinstance(x, int): g = dens[(t, x)]; tol = 1e-9; s_ = scale * sc
                        else: g = scen.global_array(st, c, x); tol = 1e-15; s_ = None
                        if c["dim"] == 3 and g.ndim == 3:   # the plane in the middle
                            nz = g.shape[2]; q = nz / 2 + 0.5; cand = [g[:, :, min(nz - 1, int(q + e_))] for e_ in (-1e-6, 0, 1e-6)]
                        else: cand = [g]
                        if not any(w.T.shape == a.shape and scen.close(w.T * sc, a, tol, s_) <= tol for w in cand): return [V("plot:values", f"{name}: layer {x} does not show the values the ranks held")]
                        if not np.allclose(ext, (0, L[0], 0, L[1]), rtol=1e-9, atol=0) or org != "lower": return [V("plot:axes", f"{name}: drawn on {ext}, {org}")]
            elif f["f"] == "get":
                got = vals[0]["rec"][k] or []
                for r in range(1, c["nranks"]):
                    if any(x is not None for _, _, xs in vals[r]["rec"][k] or [] for x in xs): return [V("get:nonroot", f"rank {r} received data")]
                tr = vals[0]["truth"].get(k, [])
                if len(got) != len(tr): return [V("get:calls", f"{len(got)} gathers for {len(tr)} triggers")]
                for n, (_, itime, arrs) in enumerate(got):
                    st, _ = scen.merge([v["truth"][k][n][1] for v in vals])
                    for comp, a in zip(f["comps"], arrs):
                        g = scen.global_array(st, c, comp)
                        if c["dim"] == 3:
                            nz = g.shape[2]; dz = scen.box(c)[1][2]; at = f.get("at", nz * dz / 2); q = at / dz + 0.5
                            cand = {min(nz - 1, int(q + e)) for e in (-1e-6, 0, 1e-6) if q + e >= 0}
                            if not any(np.array_equal(a, g[:, :, z], equal_nan=True) for z in cand):
                                z = min(cand); bad = np.argwhere(a != g[:, :, z])
                                return [V("get:values", f"step {itime} {comp} at z={at/dz:.3f} cells: {len(bad)} of {a.size} cells differ from plane {sorted(cand)}, first at {bad[0].tolist()}: got {a[tuple(bad[0])]:.6g}, the owning rank holds {g[:, :, z][tuple(bad[0])]:.6g}")]
                        elif not np.array_equal(a, g, equal_nan=True):
                            bad = np.argwhere((a != g) & ~(np.isnan(a) & np.isnan(g)))
                            return [V("get:values", f"step {itime} {comp}: {len(bad)} of {a.size} cells differ, first at {bad[0].tolist()}")]
            else:
                itv = mix.mk_interval(f["iv"], None) if f["iv"] in (1, 2, 3) else None
                for itime, got in vals[0]["truth"].get(k, []):
                    if itv is None or itime % itv: continue
                    want = dens[(itime, f["s"])]
                    if f["slice"]:
                        want = want[tuple(slice(x, (x + 1) or None) if isinstance(x, int) else slice(*x) for x in f["slice"])]
                    if got.shape != want.shape: return [V("density:shape", f"step {itime}: density has shape {got.shape}, the slice {f['slice']} selects {want.shape}")]
                    if not scen.close(want, got, 1e-9, scale) <= 1e-9:
                        bad = np.argwhere(~(np.abs(want - got) <= 1e-9 * scale) & ~(np.isnan(want) & np.isnan(got)))
                        return [V("density:values", f"step {itime} species {f['s']} slice {f['slice']}: {len(bad)} of {got.size} cells differ, first at {bad[0].tolist()}: got {got[tuple(bad[0])]:.6g}, expected {want[tuple(bad[0])]:.6g}")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])):
            if len(c["feats"]) > 1: yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
            f = c["feats"][k]
            if f.get("slice"): yield dict(c, feats=c["feats"][:k] + [dict(f, slice=None)] + c["feats"][k + 1:])
            if c.get("lb") is not None: yield dict(c, lb=None)
            if "at" in f: yield dict(c, feats=c["feats"][:k] + [{a: b for a, b in f.items() if a != "at"}] + c["feats"][k + 1:])
        if not any(f.get("slice") for f in c["feats"]):
            yield from scen.shrink_grid(c)
        else:
            yield from (d for d in scen.shrink_grid(c) if d["np"] == c["np"])
PROP = P13()
