"""P26: the same domain cut into other patches passes through the same states."""
import numpy as np
from .. import mix, scen
from ..core import Prop, V, outcome_violations

CUTS = {n: [(n // k, k) for k in range(4, n + 1) if n % k == 0] for n in (8, 10, 12, 15, 16, 18, 20, 24)}

def whole(c):
    """The configuration seen as one patch."""
    return dict(c, np=[1] * c["dim"], nc=[a * b for a, b in zip(c["np"], c["nc"])])

def joined(values, c):
    """Global fields and particles of a run, as the state of one patch."""
    st, dup = scen.merge(values)
    if dup or len(st) != int(np.prod(c["np"])): return None
    p = []
    for i in range(len(c["species"])):
        g = scen.global_particles(st, i); g.pop("patch", None); p.append(g | {"slots": 0})
    return {0: {"c": (0, 0, 0), "f": {f: scen.global_array(st, c, f) for f in scen.FIELDS}, "p": p}}

class P26(Prop):
    id = "P26"; quick_s = 20.0
    rule = "A case draws a domain (2D/3D, periodic or absorbing, cubic cells or not), populations, random fields, lasers and momentum kicks, and cuts it in two ways: into few patches on few ranks and into other patches (some left to the simulation to choose) on 1-5 ranks under another schedule and thread count. Both runs are compared at the end and in the global fields and densities that diagnostics gathered on the way."
    assumptions = ["Compared to 1e-9 of the scale of each quantity: sums over patches are in another order.", "No random physics, and no moving window: it moves by whole patches."]
    def warm(self):
        scen.warm_full()
        for w in (scen.W2, scen.W3):
            c = dict(w, bc="o" * w["dim"], np=[2] * w["dim"], species=[dict(kind="electron", n=5)], steps=2, cbs=False)
            scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 8), nmax=80)
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(0, 4), kinds=["laser", "laser", "setmom", "get", "extract"])
        for f in c["feats"]:
            if f["f"] == "extract": f["slice"] = None
        las = any(f["f"] == "laser" for f in c["feats"])
        N = [rng.choice([8, 10, 12, 15, 16, 18, 20, 24] if c["dim"] == 2 else [8, 10, 12]) for _ in range(c["dim"])]
        if las: N[0] = rng.choice([12, 16, 18, 20, 24]) if c["dim"] == 2 else 12
        for q in ("", "2"):   # the plane where lasers enter lies inside the first patches
            cut = [rng.choice([x for x in CUTS[n] if (c["bc"][k] == "p" or x[0] >= 2) and (k or not las or x[1] >= 6)]) for k, n in enumerate(N)]
            c["np" + q] = [x[0] for x in cut]; c["nc" + q] = [x[1] for x in cut]
            c["nranks" + q] = min(rng.choice([1, 1, 2]) if q == "" else rng.choice([1, 2, 3, 4, 5]), int(np.prod(c["np" + q])))
        for f in c["feats"]:
            if "at" in f: f["at"] = rng.random() * scen.box(c)[0][2]
            for o in (f, f.get("plus") or {}):
                for k, a in (("y0", 1), ("z0", 2)):
                    if k in o: o[k] = rng.random() * scen.box(c)[0][a]
        c["sched2"] = scen.gen_sched(rng); c["part2"] = rng.choice(["random", "metis", "skew", "roundrobin"]); c["omp2"] = rng.choice([1, 2, 4])
        if all(n >= 12 for n in N) and rng.random() < 0.35:   # the second time the patches are left to the simulation to choose
            c["auto2"] = True; c["nranks2"] = rng.choice([1, 2, 3, 4])
        c["lb"] = None; c["lb2"] = rng.choice([None, None, 1e-6])
        return c
    def other(self, c):
        """The second run of a case."""
        return {**c, **{q: c.get(q + "2") for q in ("np", "nc", "nranks", "sched", "part", "omp", "lb", "auto")}}
    def execute(self, c, ctx):
        runs = []
        for k, cc in enumerate((c, self.other(c))):
            o = ctx.run(mix.program, cc["nranks"], args=(cc, ctx.dir()), sched=cc["sched"], omp=cc["omp"], name=f"cut{k}")
            v = outcome_violations(o, what="first cut" if k == 0 else "second cut")
            if v: return v
            runs.append(o.values())
        if c.get("auto2"):
            np_ = runs[1][0]["np"]; N = [a * b for a, b in zip(c["np"], c["nc"])]
            if any(r["np"] != np_ for r in runs[1]): return [V("auto-patches", f"the ranks choose different patches: {[r['np'] for r in runs[1]]}")]
            c = dict(c, np2=np_, nc2=[a // b for a, b in zip(N, np_)])
        what = f"{c['np']} patches of {c['nc']} cells on {c['nranks']} ranks vs {c['np2']} of {c['nc2']} on {c['nranks2']}, {c['steps']} steps"
        a, b = joined([r["state"] for r in runs[0]], c), joined([r["state"] for r in runs[1]], self.other(c))
        if a is None or b is None: return [V("patches", f"{what}: patches are missing or held twice")]
        w = whole(c)
        v = scen.compare_states(w, a, b, 1e-9, what)
        if v: return [v]
        x, y = runs[0][0], runs[1][0]
        if (x["itime"], x["time"]) != (y["itime"], y["time"]): return [V("clock", f"{what}: the runs end at other times")]
        g, h = x["rec"].get("get", []), y["rec"].get("get", [])
        if [q[:2] for q in g] != [q[:2] for q in h]: return [V("diagnostics", f"{what}: gathered at other steps")]
        scale = {}
        for k, it, p in g:
            for n, f in zip(c["feats"][k]["comps"], p): scale[n[0]] = max(scale.get(n[0], 0.0), float(np.nanmax(np.abs(f))), float(np.nanmax(np.abs(np.concatenate([a[0]["f"][m].ravel() for m in scen.FIELDS if m[0] == n[0]])))))
        for (k, it, p), (_, _, q) in zip(g, h):
            for n, f1, f2 in zip(c["feats"][k]["comps"], p, q):
                d = scen.close(np.asarray(f1), np.asarray(f2), 0, scale[n[0]] or 1.0)
                if not d <= 1e-9: return [V("diagnostics", f"{what}: {n} gathered at step {it} differs by {d:.3g} of its scale")]
        for k in x["ext"]:
            for t in sorted(set(x["ext"][k]) | set(y["ext"][k])) if isinstance(x["ext"][k], dict) else [None]:
                u, z = (np.asarray(e["ext"][k] if t is None else e["ext"][k].get(t)) for e in (x, y))
                if u.shape != z.shape or not scen.close(u.astype(float), z.astype(float), 0) <= 1e-9: return [V("diagnostics", f"{what}: an extracted density differs")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["nranks2"] > 1: yield dict(c, nranks2=c["nranks2"] - 1)
        if c["nranks"] > 1: yield dict(c, nranks=1)
        if c.get("auto2"): yield {k: v for k, v in c.items() if k != "auto2"}; return
        if c["lb2"] is not None: yield dict(c, lb2=None)
        if c["cbs"]: yield dict(c, cbs=False)
        if c["species"]: yield dict(c, species=[], feats=[f for f in c["feats"] if f.get("s") is None])
        for n in (c["steps"] // 2, c["steps"] - 1):
            if n: yield dict(c, steps=n)
        for q in ("dx", "cfl"):
            if q in c: yield {k: v for k, v in c.items() if k != q}
        for k in range(c["dim"]):
            if c["np"][k] != c["np2"][k]:
                d = dict(c, np2=list(c["np2"]), nc2=list(c["nc2"])); d["np2"][k], d["nc2"][k] = c["np"][k], c["nc"][k]; d["nranks2"] = min(d["nranks2"], int(np.prod(d["np2"]))); yield d
PROP = P26()
