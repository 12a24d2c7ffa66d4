"""P24 diagnostics are passive: a run that is watched ends like the same run unwatched."""
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

def program(rank, cfg, root, feats, cbs):
    from lambdapic import callback
    sim = scen.build(cfg); rec = {}; log = []; hist = []
    @callback(stage="end")
    def step(s): hist.append({f: sum(float((np.abs(getattr(p.fields, f)[scen.patch_slices(p, cfg["dim"])[1]])).sum()) for p in s.patches) for f in scen.FIELDS})
    act = mix.make(sim, cfg, [f for f in cfg["feats"] if f["f"] not in mix.PASSIVE], root, {})   # what drives the run is in both
    obs = mix.make(sim, cfg, feats, root, rec)
    order = np.random.default_rng(cfg["fseed"]).permutation(len(obs)) if cfg["shuffle"] else np.arange(len(obs))
    sim.run(nsteps=cfg["steps"], callbacks=act + [obs[i] for i in order] + (scen.pusher_stage_cbs(dict(cfg, cbs=True), log) if cbs else []) + [step])
    return dict(state=scen.observe(sim), itime=sim.itime, time=sim.time, hist=hist)

class P24(Prop):
    id = "P24"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks and a mix of observers (HDF5 output of fields, densities and particles, slices, gathered fields, extracted densities, checkpoints, user callbacks at every stage and interval, among them those that switch to the separate kernels); the run is done with and without them."
    assumptions = ["States are compared to 1e-9 of their scale: observers in the pusher stages switch to other kernels that round differently."]
    def warm(self):
        from .p08 import warm_restart
        scen.warm_full(); warm_restart()
        for w in (scen.W2P, scen.W3P):
            c = dict(w, steps=2)
            scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(1, 6), nmax=80)
        scen.add_mask(rng, c)
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(1, 4)); c["stagecb"] = rng.random() < 0.4; c["shuffle"] = rng.random() < 0.3; c["cbs"] = False
        c["lb"] = rng.choice([None, None, 1e-6, 0.2]); mix.gen_dis(rng, c, asked=False)
        return c
    def execute(self, c, ctx):
        root = ctx.dir(); st = []
        watch = [f for f in c["feats"] if f["f"] in mix.PASSIVE]
        for k in range(2):
            import os
            d = os.path.join(root, str(k)); os.mkdir(d)
            o = ctx.run(program, c["nranks"], args=(c, d, watch if k else [], bool(k and c["stagecb"])), name="watched" if k else "plain")
            v = outcome_violations(o, what="watched run" if k else "plain run")
            if v: return v
            vals = o.values(); s, dup = scen.merge([x["state"] for x in vals])
            if dup: return [V("patches", f"patches {dup} on two ranks")]
            hist = [{f: sum(x["hist"][t][f] for x in vals) for f in scen.FIELDS} for t in range(len(vals[0]["hist"]))]
            st.append((s, vals[0]["itime"], vals[0]["time"], hist))
        a, b = st
        if a[1:3] != b[1:3]: return [V("clock", f"the watched run ends at step {b[1]}, t={b[2]!r}, the plain run at {a[1]}, t={a[2]!r}")]
        if len(a[3]) != len(b[3]): return [V("steps", f"the watched run made {len(b[3])} steps, the plain run {len(a[3])}")]
        sc = {}
        for h in a[3]:
            for f in h: sc[f[0]] = max(sc.get(f[0], 0.0), h[f])
        for t, (h, g) in enumerate(zip(a[3], b[3])):
            for f in h:
                if not abs(h[f] - g[f]) <= 1e-9 * (sc[f[0]] or 1.0): return [V(f"history:{f[0]}", f"after step {t} the sum of |{f}| is {g[f]:.9g} in the watched run, {h[f]:.9g} in the plain run")]
        v = scen.compare_states(c, a[0], b[0], 1e-9, "watched and plain run")
        return [v] if v else []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        if c["stagecb"]: yield dict(c, stagecb=False)
        if c["shuffle"]: yield dict(c, shuffle=False)
        if c["lb"] is not None: yield dict(c, lb=None)
        yield from (x for x in scen.shrink_grid(c) if len(x["species"]) == len(c["species"]))
PROP = P24()
