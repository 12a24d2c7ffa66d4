"""P27 switches: a part of the simulation that is switched off does nothing until it is switched on again, whichever kernels run, and everything else goes on."""
import os
import numpy as np
from .. import scen, mix, qed
from ..core import Prop, V, outcome_violations
from .p08 import warm_restart

PARTS = ("x", "y", "z", "ux", "uy", "uz")

def target(sim, a):
    m = a["m"]
    if m == "species": return sim.species[a["k"]]
    if m in ("pusher", "radiation", "pairproduction"): return getattr(sim, m)[a["k"]]
    return getattr(sim, {"interp": "interpolator", "depos": "current_depositor", "lb": "load_balancer"}[m])

def is_off(c, m, k, t):
    return any(a["m"] == m and a.get("k") == k and a["off"] <= t and (a["on"] is None or t < a["on"]) for a in c["acts"])

def snap(sim):
    dim = sim.dimension; P = []
    for g in qed.particles(sim, extra=(), attrs=["_id", "w"] + [a for a in PARTS if a != "z" or dim == 3]):
        o = np.argsort(g["_id"].view(np.uint64)) if g["_id"].size else slice(0, 0)
        P.append({a: v[o] for a, v in g.items()})
    J = max((float(np.abs(getattr(p.fields, f)).max()) for p in sim.patches for f in ("jx", "jy", "jz", "rho")), default=0.0)
    return dict(P=P, J=J, own=[p.index for p in sim.patches], t=sim.itime)

def drive(sim, cfg, rec, root, split):
    from lambdapic import callback
    @callback(stage="start")
    def switch(s):
        for a in cfg["acts"]:
            if a["off"] == s.itime: target(s, a).disable()
            if a["on"] == s.itime: target(s, a).enable()
    @callback(stage="end")
    def look(s): rec.append(snap(s))
    log = []
    q = "nseed" in cfg
    ex = {}
    cbs = mix.make(sim, cfg, cfg["feats"], root, ex)
    return ([qed.haste(cfg)] if q else []) + [switch] + cbs + scen.pusher_stage_cbs(dict(cfg, cbs=split), log) + [look], ex

def program(rank, cfg, root, split=False, ckpt=None):
    from lambdapic.callback.restart import RestartDump
    q = "nseed" in cfg
    if ckpt:
        sim = RestartDump.load(ckpt)
        if q: qed.seed_numba(cfg["nseed"] * 31 + rank + 77)
    else:
        sim = qed.build(cfg, rank) if q else scen.build(cfg)
        for a in cfg["acts"]:
            if a["off"] < 0: target(sim, a).disable()
    rec = []; first = snap(sim)
    cbs, ex = drive(sim, cfg, rec, root, split)
    sim.run(nsteps=cfg["steps"] - sim.itime, callbacks=cbs)
    return dict(state=scen.observe(sim), itime=sim.itime, first=first, rec=rec, ext={k: cb.density for k, cb in ex.get("extract", {}).items()} if rank == 0 else {})

def joined(vals, t):
    """Particles of all ranks, by identity."""
    out = []
    S = [x["first"] if t < 0 else x["rec"][t] for x in vals]
    for k in range(len(S[0]["P"])):
        g = {a: np.concatenate([s["P"][k][a] for s in S]) for a in S[0]["P"][k]}
        o = np.lexsort((g["w"], g["_id"].view(np.uint64)))
        out.append({a: v[o] for a, v in g.items()})
    return out, max(s["J"] for s in S), [tuple(s["own"]) for s in S]

class P27(Prop):
    id = "P27"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks (with or without photon emission and pair creation) and one to three parts that are switched off at a random step, or from the start, and perhaps on again: a species, its pusher, emission, pair creation, the interpolation, the current deposition, the load balancer. Step by step, what is off must do nothing; the run must end like the same run in one process, with the separate kernels, and continued from a checkpoint; a species that is off throughout must leave the rest as if it had no particles."
    assumptions = ["States are compared to 1e-9 of their scale. With random events (emission, pair creation) only the step-by-step conditions are judged.", "Collisions are off."]
    def warm(self): scen.warm_full(); warm_restart(); qed.warm()
    def gen(self, rng, tier, i):
        q = rng.random() < 0.35
        c = qed.gen(rng, steps=(2, 6), nmax=30) if q else scen.gen_full(rng, steps=(2, 6), nmax=60, mix=[m for m in scen.MIX if m])
        scen.add_mask(rng, c)
        if q: c["bc"] = "p" * c["dim"] if rng.random() < 0.7 else c["bc"]
        if rng.random() < 0.1: c["nranks"] = 1
        c["cbs"] = False; c["lb"] = rng.choice([None, 1e-6, 1e-6, 0.2])
        S = c["species"]; acts = []
        can = ["species"] * 3 + ["pusher", "interp", "depos", "lb"]
        if q: can += ["radiation"] * 3 + ["pairproduction"] * 3
        for _ in range(rng.randint(1, 3)):
            m = rng.choice(can); a = dict(m=m)
            if m in ("species", "pusher"): a["k"] = rng.randrange(len(S))
            elif m == "radiation": a["k"] = rng.choice([k for k, s in enumerate(S) if s.get("rad") is not None] or [None])
            elif m == "pairproduction": a["k"] = rng.choice([k for k, s in enumerate(S) if s.get("bw")] or [None])
            else: a["k"] = None
            if m in ("radiation", "pairproduction") and a["k"] is None or any(b["m"] == m and b["k"] == a["k"] for b in acts): continue
            a["off"] = rng.randint(-1, c["steps"] - 1); a["on"] = rng.choice([None, rng.randint(max(a["off"], 0) + 1, c["steps"])])
            acts.append(a)
        c["acts"] = acts or [dict(m="species", k=0, off=-1, on=None)]
        c["feats"] = [f for f in mix.gen_feats(rng, c, n=rng.choice([0, 1, 2]), kinds=["extract", "density", "laser"]) if not (f["f"] in ("extract", "density") and S[f["s"]]["kind"] == "photon")]
        for f in c["feats"]: f["iv"] = 1
        c["ck"] = rng.choice([None, rng.randint(0, c["steps"] - 1)]); c["cmp"] = rng.choice(["one", "split", "absent", "one", "split"])
        return c
    def steps(self, c, vals, t0=0):
        if len({len(x["rec"]) for x in vals}) != 1: return [V("steps", f"ranks made {[len(x['rec']) for x in vals]} steps")]
        S = c["species"]; rad, bw = qed.links(c)
        on = lambda m, k, t: not is_off(c, m, k, t) and not is_off(c, "species", k, t)
        prev = None
        for n in range(len(vals[0]["rec"])):
            t = t0 + n; cur = joined(vals, n); before = joined(vals, -1) if prev is None else prev; prev = cur
            if {x["rec"][n]["t"] for x in vals} != {t}: return [V("steps", f"record {n} is of step {[x['rec'][n]['t'] for x in vals]}")]
            if t == 0: continue      # the initial population may hold particles beyond the absorbing edges
            emits = {k: on("radiation", k, t) for k, _ in rad}; makes = {k: on("pairproduction", k, t) for k, _, _ in bw}
            born = {ph for k, ph in rad if emits[k]} | {x for k, e, p in bw if makes[k] for x in (e, p)}
            dies = {k for k in makes if makes[k]}; recoil = {k for k in emits if emits[k]}
            quiet = [k for k in range(len(S)) if is_off(c, "species", k, t) or is_off(c, "pusher", k, t)]
            for k in range(len(S)):
                a, b = before[0][k], cur[0][k]; what = f"step {t}: species {k} ({S[k]['kind']})"
                qed_off = k not in born
                if "nseed" in c and qed_off:
                    new = np.setdiff1d(b["_id"], a["_id"])
                    if new.size: return [V("born", f"{what}: {new.size} particles appear although nothing that creates them is switched on")]
                if "nseed" in c and k not in dies and (k in quiet or "o" not in c["bc"] and not c.get("mask")):
                    gone = np.setdiff1d(a["_id"], b["_id"])
                    if gone.size: return [V("gone", f"{what}: {gone.size} particles disappear although nothing that removes them is switched on")]
                if k in quiet:
                    _, ia, ib = np.intersect1d(a["_id"], b["_id"], return_indices=True)
                    if k not in dies and ia.size != a["_id"].size: return [V("moved:gone", f"{what} is switched off but loses {a['_id'].size - ia.size} particles")]
                    if k not in born and b["_id"].size != a["_id"].size: return [V("moved:count", f"{what} is switched off but has {b['_id'].size} particles after the step, {a['_id'].size} before")]
                    for at in a:
                        if at[0] == "u" and k in recoil: continue
                        if not np.array_equal(a[at][ia], b[at][ib]): return [V(f"moved:{'position' if at in 'xyz' else 'momentum'}", f"{what} is switched off but its {at} changes")]
            if cur[1] != 0 and (is_off(c, "depos", None, t) or all(is_off(c, "species", k, t) or s["kind"] == "photon" for k, s in enumerate(S))):
                return [V("deposit", f"step {t}: nothing that deposits is switched on, but the currents reach {cur[1]:g}")]
            if is_off(c, "lb", None, t) and cur[2] != before[2]: return [V("migrated", f"step {t}: patches change ranks although the load balancer is switched off")]
        return []
    def execute(self, c, ctx):
        root = ctx.dir(); q = "nseed" in c; S = c["species"]
        feats = c["feats"] + ([dict(f="ckpt", iv=1, keep=None)] if c["ck"] is not None else [])
        o = ctx.run(program, c["nranks"], args=(dict(c, feats=feats), os.path.join(root, "a")), root=root)
        v = outcome_violations(o, what=f"run with {[(a['m'], a['k'], a['off'], a['on']) for a in c['acts']]} switched")
        if v: return v
        if o.orphans: return [V("orphan-message", f"{o.orphans} message(s) never received")]
        vals = o.values(); v = self.steps(c, vals)
        if v: return v
        st, _ = scen.merge([x["state"] for x in vals])
        if c["ck"] is not None:
            d = os.path.join(root, "a", f"f{len(c['feats'])}", f"ckpt_{c['ck']:06d}")
            r = ctx.run(program, c["nranks"], args=(c, os.path.join(root, "b"), False, d), name="continued", benign=True)
            v = outcome_violations(r, what=f"run continued from step {c['ck']}") or self.steps(c, r.values(), c["ck"] + 1)
            if v: return [dict(x, sig="continued:" + x["sig"]) for x in v]
            if not q:
                v = scen.compare_states(c, st, scen.merge([x["state"] for x in r.values()])[0], 1e-9, f"run continued from step {c['ck']} against uninterrupted run", sig="continued:")
                if v: return [v]
        if q: return []
        one = dict(c, nranks=1, part="metis")
        if c["cmp"] == "absent":
            gone = [k for k in range(len(S)) if any(a["m"] == "species" and a["k"] == k and a["off"] <= 0 and a["on"] is None for a in c["acts"])]
            if not gone: return []
            # a species without particles deposits nothing, so what its kernels do cannot matter
            sp = [dict(s, n=0) if k in gone else s for k, s in enumerate(S)]
            x = ctx.run(program, 1, args=(dict(one, species=sp, feats=[f for f in c["feats"] if f.get("s") not in gone], acts=[a for a in c["acts"] if not (a["m"] == "species" and a["k"] in gone)]), os.path.join(root, "c")), name="without it", benign=True, omp=1)
        else:
            x = ctx.run(program, 1 if c["cmp"] == "one" else c["nranks"], args=(one if c["cmp"] == "one" else c, os.path.join(root, "c"), c["cmp"] == "split"), name=c["cmp"], benign=True)
        v = outcome_violations(x, what=f"reference ({c['cmp']})")
        if v: return v
        ref, _ = scen.merge([y["state"] for y in x.values()])
        what = {"one": "against a single process", "split": "unified against separate kernels", "absent": f"species {[k for k in range(len(S))]} off against no particles"}[c["cmp"]]
        if c["cmp"] == "absent":
            for s in (ref, st):
                for p in s.values():
                    for k in gone: p["p"][k] = {a: y if a == "slots" else y[:0] for a, y in p["p"][k].items()}
        v = scen.compare_states(c, ref, st, 1e-9, what, sig=c["cmp"] + ":")
        if v: return [v]
        if c["cmp"] != "absent":
            a, b = x.values()[0]["ext"], vals[0]["ext"]
            for k in b:
                sc = float(np.nanmax(np.abs(a[k]))) if np.isfinite(a[k]).any() else 0.0
                if a[k].shape != b[k].shape or not (np.abs(np.nan_to_num(a[k]) - np.nan_to_num(b[k])) <= 1e-9 * (sc or 1.0)).all(): return [V(c["cmp"] + ":density", f"{what}: density of species {c['feats'][k]['s']} differs by {np.nanmax(np.abs(a[k] - b[k])):g} (maximum {sc:g})")]
        return []
    def shrink(self, c):
        for k in range(len(c["acts"])):
            if len(c["acts"]) > 1: yield dict(c, acts=c["acts"][:k] + c["acts"][k + 1:])
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["ck"] is not None: yield dict(c, ck=None)
        if c["lb"] is not None: yield dict(c, lb=None)
        for x in scen.shrink_grid(c):
            if len(x["species"]) == len(c["species"]) and x["steps"] == c["steps"]: yield x
PROP = P27()
