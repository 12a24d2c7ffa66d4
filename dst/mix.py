"""Feature mixes: the callbacks a real input script attaches, drawn at random and built from plain JSON."""
from __future__ import annotations
import os
import numpy as np
from . import scen

STAGES = ["start", "maxwell_1", "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end"]
COMPS = ["ex", "ey", "ez", "bx", "by", "bz", "jx", "jy", "jz", "rho"]

def mods():
    import importlib
    return [importlib.import_module("lambdapic.callback." + m) for m in ("hdf5", "utils", "restart", "laser")]

def gen_slice(rng, cfg):
    """A per-axis selection of the grid: integers, ranges, strides, negative numbers."""
    if rng.random() < 0.35: return None
    out = []
    for i in range(cfg["dim"]):
        n = cfg["np"][i] * cfg["nc"][i]; k = rng.random()
        if k < 0.25: out.append([None, None, None])
        elif k < 0.45: out.append(rng.randrange(n) - (n if rng.random() < 0.3 else 0))
        elif k < 0.7: a = rng.randrange(n); out.append([a, rng.randint(a + 1, n), None])
        elif k < 0.9: out.append([rng.choice([None, rng.randrange(n // 2 + 1)]), None, rng.choice([2, 3, 5])])
        else: a = rng.randrange(n); out.append([a, rng.randint(a + 1, n), rng.choice([1, 2, 3])])
    return out
def mk_slice(s):
    return None if s is None else tuple(x if isinstance(x, int) else slice(*x) for x in s)

def gen_interval(rng):
    return rng.choice([1, 1, 2, 3, "1.6", "pred", "pred2"])
def mk_interval(iv, sim):
    if iv == "pred": return lambda s: s.itime % 2 == 1
    if iv == "pred2": return lambda s: s.itime in (0, 3)
    if isinstance(iv, str): return float(iv) * sim.dt     # a time interval
    return iv

def gen_laser(rng, cfg, more=True):
    """One pulse: profile, polarisation, place, angle, length; or two of them added."""
    o = dict(g=rng.random() < 0.5)
    if rng.random() < 0.3: return o    # the plainest
    L = scen.box(cfg)[0]
    if rng.random() < 0.7: o["pol_angle"] = rng.choice([np.pi / 2, 0.7, -1.2])
    if rng.random() < 0.5: o["ellipticity"] = rng.choice([1.0, -0.5])
    if rng.random() < 0.4: o["y0"] = rng.random() * L[1]
    if rng.random() < 0.4 and cfg["dim"] == 3: o["z0"] = rng.random() * L[2]
    if rng.random() < 0.3: o["cep"] = rng.choice([1.0, np.pi])
    if rng.random() < 0.4: o["ctau"] = rng.choice([5e-8, 1.2e-7, 3e-7])    # may end while the run goes on
    if rng.random() < 0.15: o["tstop"] = rng.choice([1.5e-16, 4e-16])
    if o["g"]:
        o["x0"] = rng.choice([0.0, 1e-7, 4e-7])
        if rng.random() < 0.4: o["focus_position"] = rng.choice([-1e-6, 3e-7, 1e-5])
        if rng.random() < 0.4: o.update(l=rng.choice([0, 1, -2]), p=rng.choice([0, 1]))
    elif rng.random() < 0.4: o["angle_y"] = rng.choice([0.3, -0.8])
    if more and rng.random() < 0.35: o["plus"] = gen_laser(rng, cfg, more=False)
    return o
def mk_laser(LA, cfg, o):
    cls = getattr(LA, ("Gaussian" if o["g"] else "Simple") + f"Laser{cfg['dim']}D")
    a = cls(**{"a0": 1.0, "w0": 3e-7, "l0": 8e-7, "ctau": 6e-7, **{k: v for k, v in o.items() if k in ("pol_angle", "ellipticity", "y0", "z0", "cep", "ctau", "tstop", "x0", "focus_position", "l", "p", "angle_y")}})
    return a + mk_laser(LA, cfg, o["plus"]) if o.get("plus") else a

def gen_feats(rng, cfg, n=None, kinds=None):
    ns = len(cfg["species"]); out = []
    kinds = kinds or ["fields", "density", "parts", "extract", "get", "get", "ckpt", "note", "note", "plot", "setmom", "laser"]
    kinds = [k for k in kinds if ns or k not in ("density", "parts", "extract", "setmom")]
    if cfg["bc"][0] != "o": kinds = [k for k in kinds if k != "laser"]
    for _ in range((rng.choice([0, 1, 2, 2, 3, 4]) if n is None else n) if kinds else 0):
        k = rng.choice(kinds); f = dict(f=k, iv=gen_interval(rng))
        if k == "fields": f.update(comps=rng.sample(COMPS, rng.randint(1, 4)) if rng.random() < 0.8 else None, slice=gen_slice(rng, cfg), stage=rng.choice([None, None, "end", "maxwell_1"]))
        elif k == "density": f.update(s=rng.randrange(ns), slice=gen_slice(rng, cfg))
        elif k == "extract": f.update(s=rng.randrange(ns), slice=gen_slice(rng, cfg))
        elif k == "parts": f.update(s=rng.randrange(ns), attrs=rng.choice([None, ["x", "w"], ["x", "y", "ux", "uy", "uz", "w"]]))
        elif k == "get": f.update(comps=rng.sample(COMPS, rng.randint(1, 3)), stage=rng.choice(["start", "maxwell_1", "end"]), **(dict(at=rng.random() * scen.box(cfg)[0][2]) if cfg["dim"] == 3 and rng.random() < 0.6 else {}))
        elif k == "ckpt": f.update(keep=rng.choice([None, 1, 2]))
        elif k == "note": f.update(stage=rng.choice(STAGES))
        elif k == "setmom": f.update(s=rng.randrange(ns), u=[rng.choice([0.0, 1.0]), 0.5, 0.0], stage=rng.choice(["start", "start", "maxwell_1"]), add=rng.random() < 0.5)
        elif k == "plot": f.update(what=[[rng.choice(COMPS) if not ns or rng.random() < 0.7 else rng.randrange(ns), rng.choice([1.0, 1e-3])] for _ in range(rng.randint(1, 3))] if cfg["dim"] == 2 else [[rng.choice(COMPS), 1.0]])
        elif k == "laser": f.update(gen_laser(rng, cfg))
        if k in ("fields", "density", "parts", "ckpt") and any(g["f"] == k and g.get("s") == f.get("s") for g in out): continue
        out.append(f)
    return out
PASSIVE = {"fields", "density", "parts", "extract", "get", "ckpt", "note", "plot"}

def gen_dis(rng, c, asked=True, p=0.3):
    """Now and then species are switched off (those whose density is compared are not)."""
    no = ({f.get("s") for f in c["feats"]} | {w[0] for f in c["feats"] if f["f"] == "plot" for w in f["what"]}) if asked else set()
    if rng.random() < p: c["dis"] = [k for k in range(len(c["species"])) if k not in no and rng.random() < 0.7]

class Canvas:
    """Stands for pyplot: keeps what was to be drawn."""
    outs = {}
    def subplots(self, **kw):
        self.cur = []; return self, self
    def imshow(self, a, **kw): self.cur.append((np.array(a), kw.get("extent"), kw.get("origin"))); return None
    def savefig(self, path, **kw): d = os.path.dirname(str(path)); self.outs[d].append((os.path.basename(d), os.path.basename(str(path)), self.cur))
    def colorbar(self, *a, **k): return self
    def __getattr__(self, n): return lambda *a, **k: None

def make(sim, cfg, feats, root, rec):
    """The callback objects of a feature list; what they return or are called with goes to `rec`."""
    from lambdapic import callback
    H, U, R, LA = mods()
    cbs = []
    for k, f in enumerate(feats):
        kind = f["f"]; iv = mk_interval(f.get("iv", 1), sim); d = os.path.join(root, f"f{k}")
        sp = sim.species[f["s"]] if f.get("s") is not None else None
        if kind == "fields":
            cb = H.SaveFieldsToHDF5(d, interval=iv, components=f["comps"], slice=mk_slice(f["slice"]))
            if f.get("stage"): cb.stage = f["stage"]
        elif kind == "density": cb = H.SaveSpeciesDensityToHDF5(sp, d, interval=iv, slice=mk_slice(f["slice"]))
        elif kind == "parts": cb = H.SaveParticlesToHDF5(sp, d, interval=iv, attrs=list(f["attrs"]) if f["attrs"] else None)
        elif kind == "extract":
            cb = U.ExtractSpeciesDensity(sim, sp, interval=iv, slice=mk_slice(f["slice"])); rec.setdefault("extract", {})[k] = cb
        elif kind == "ckpt": cb = R.RestartDump(d, interval=iv, keep=f["keep"])
        elif kind == "get":
            def make_get(k=k, f=f):
                @callback(stage=f["stage"], interval=iv)
                def get(s):
                    rec.setdefault("get", []).append((k, s.itime, U.get_fields(s, f["comps"], **({"slice_at": f["at"]} if "at" in f else {}))))
                return get
            cb = make_get()
        elif kind == "note":
            def make_note(k=k, f=f):
                @callback(stage=f["stage"], interval=iv)
                def note(s): rec.setdefault("note", []).append((k, s.itime, s.ispec if f["stage"] == "current_deposition" else None))
                return note
            cb = make_note()
        elif kind == "setmom": cb = U.SetMomentum(sp, list(f["u"]), interval=iv, add=f.get("add", False)); cb.stage = f["stage"]
        elif kind == "laser":
            cb = mk_laser(LA, cfg, f)
        elif kind == "plot":
            from lambdapic.callback import plot as P
            P.plt = Canvas(); Canvas.outs[d] = rec.setdefault("plot", []); P.register_cmaps = P.unregister_cmaps = lambda: None
            cf = [dict(field=x, scale=s) for x, s in f["what"] if not isinstance(x, int)]
            for x, s in f["what"]:
                if isinstance(x, int):   # the density that another callback extracts
                    ex = U.ExtractSpeciesDensity(sim, sim.species[x], interval=1); cbs.append(ex); cf.append(dict(field=ex.density, scale=s))
            cb = P.PlotFields(cf, d, interval=iv)
        elif kind == "mw": cb = U.MovingWindow(velocity=f["v"] * scen.C0, start_time=f.get("t0", 0) * sim.dt, inject_particles=f.get("inject", True))
        else: raise KeyError(kind)
        cbs.append(cb)
    return cbs

def program(rank, cfg, root, feats=None, collect=()):
    """Build, run with the feature mix, observe."""
    feats = cfg["feats"] if feats is None else feats
    sim = scen.build(cfg)
    rec = {}; log = []
    kw = {}
    if cfg.get("stop"):
        st = cfg["stop"]; cnt = [0]
        def stop():
            cnt[0] += 1
            return rank in st["ranks"] and cnt[0] >= st["at"]
        kw["stop_callback"] = stop
    cbs = make(sim, cfg, feats, root, rec) + scen.pusher_stage_cbs(cfg, log)
    ret = []
    for n in cfg.get("segments") or [cfg["steps"]]:
        ret.append(sim.run(nsteps=n, callbacks=cbs, **kw))
    ext = {k: cb.density for k, cb in rec.pop("extract", {}).items()}
    return dict(state=scen.observe(sim), itime=sim.itime, time=sim.time, ret=ret, rec=rec, ext=ext if rank == 0 else {}, npatch=len(sim.patches), np=[getattr(sim, f"npatch_{a}") for a in "xyz"[:cfg["dim"]]])
