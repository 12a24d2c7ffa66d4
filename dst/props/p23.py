"""P23 runs in pieces: however a run is cut into calls of run(), stopped and continued, it passes through the same steps to the same end."""
import os
from .. import scen, mix
from ..core import Prop, V, outcome_violations

def program(rank, cfg, root, parts):
    """Makes the steps of cfg in the pieces of `parts`."""
    over = {}; tot = cfg.get("total")
    if tot and any(p["how"] == "K" for p in parts):
        d = scen.make_sim(cfg).dt if tot["how"] == "T" else 0
        over = dict(nsteps=tot["n"]) if tot["how"] == "N" else dict(sim_time=(tot["n"] + tot["frac"]) * d)
    sim = scen.build(cfg, **over); rec = {}; log = []; marks = []
    cbs = mix.make(sim, cfg, cfg["feats"], root, rec) + scen.pusher_stage_cbs(cfg, log)
    for p in parts:
        kw = {}; at = sim.itime
        if p.get("stop") is not None:
            cnt = [0]
            def stop(p=p, cnt=cnt):
                cnt[0] += 1
                return rank in p["ranks"] and cnt[0] >= p["stop"]
            kw["stop_callback"] = stop
        if p["how"] == "n": kw["nsteps"] = p["n"] - at
        elif p["how"] == "t": kw["sim_time"] = (p["n"] + p["frac"]) * sim.dt
        ret = sim.run(callbacks=cbs, **kw)
        marks.append((at, sim.itime, ret))
    ext = {k: cb.density for k, cb in rec.pop("extract", {}).items()}
    return dict(state=scen.observe(sim), itime=sim.itime, time=sim.time, dt=sim.dt, marks=marks, note=rec.get("note", []), ext=ext)

class P23(Prop):
    id = "P23"; quick_s = 18.0
    rule = "A case draws a simulation on 1-4 ranks with lasers, momentum kicks, output and load balancing, and makes its steps once in one call and once in pieces: by step counts, by physical time (targets on a step, to rounding, and between steps), by the total of the constructor (at first or after other pieces), and by stop callbacks that turn true on any ranks and leave the rest to the next piece."
    assumptions = ["A target in physical time means the last step that starts a full step before it, where a target on a step to within rounding counts as reached.", "States are compared to 1e-9 of their scale (load balancing and kernel choice may regroup sums)."]
    def warm(self):
        scen.warm_full()
        for w in (scen.W2P, scen.W3P):
            c = dict(w, steps=2)
            scen.full_program(0, c, extra=lambda sim: mix.make(sim, c, [dict(f="laser", g=False), dict(f="laser", g=True)], "/nonexistent", {}))
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, steps=(2, 9), nmax=60)
        scen.add_mask(rng, c)
        if rng.random() < 0.15: c["nranks"] = 1
        c["nranks"] = min(c["nranks"], 4); c["lb"] = rng.choice([None, None, 1e-6, 0.2]); c["cfl"] = rng.uniform(0.4, 0.95)
        if c["dim"] == 3: c["steps"] = min(c["steps"], 5)
        elif rng.random() < 0.3: c["steps"] = rng.randint(8, 20 if tier == "quick" else 40)
        c["feats"] = mix.gen_feats(rng, c, n=rng.randint(0, 3), kinds=["setmom", "laser", "laser", "note", "note", "fields", "density", "parts", "extract"])
        for f in c["feats"]:
            if f["f"] == "setmom" and f["iv"] == 1: f["iv"] = 3
        N = c["steps"]; parts = []; at = 0
        if rng.random() < 0.4: c["total"] = dict(how=rng.choice("NT"), n=rng.choice([N, rng.randint(1, N)]), frac=rng.choice([0.0, 0.0, 0.3, 0.7]))
        while at < N:
            n = rng.randint(at, N) if len(parts) < 4 else N
            p = dict(how=rng.choice(["n", "n", "t"]), n=n, frac=rng.choice([0.0, 0.0, 0.3, 0.7]))
            if c.get("total") and len(parts) < 4 and rng.random() < 0.6: p["how"] = "K"; p["n"] = c["total"]["n"]; n = max(at, p["n"])   # the total given to the constructor
            if n > at and rng.random() < 0.35:
                p["stop"] = rng.randint(1, n - at); p["ranks"] = sorted(rng.sample(range(c["nranks"]), rng.randint(1, c["nranks"]))); n = at + p["stop"]
            parts.append(p); at = n
        c["parts"] = parts
        return c
    def execute(self, c, ctx):
        root = ctx.dir(); st = []
        for name, parts in (("whole", [dict(how="n", n=c["steps"])]), ("pieces", c["parts"])):
            d = os.path.join(root, name); os.mkdir(d)
            o = ctx.run(program, c["nranks"], args=(c, d, parts), name=name)
            v = outcome_violations(o, what=f"run in {name}")
            if v: return v
            st.append(o.values())
            if o.orphans: return [V("orphan-message", f"run in {name}: {o.orphans} message(s) never received")]
        a, b = st; at = 0
        for k, p in enumerate(c["parts"]):
            end = at + p["stop"] if p.get("stop") else max(at, p["n"]); want = (at, end, "stop by callback" if p.get("stop") else None)
            got = [x["marks"][k] for x in b]
            if len(set(got)) > 1: return [V("ranks-differ", f"piece {k} {p}: the ranks made the steps {got}")]
            if got[0][:2] != want[:2]: return [V("steps", f"piece {k} {p} went from step {got[0][0]} to {got[0][1]}, not from {want[0]} to {want[1]}")]
            if (got[0][2] is None) != (want[2] is None): return [V("result", f"piece {k} {p} returned {got[0][2]!r}")]
            at = end
        dt = a[0]["dt"]
        for x in a + b:
            if x["itime"] != c["steps"] or abs(x["time"] - c["steps"] * dt) > 1e-9 * dt * c["steps"]: return [V("clock", f"ends at step {x['itime']}, t={x['time'] / dt:.9g} dt instead of {c['steps']}")]
        for x, y in zip(a, b):
            if [q[:3] for q in x["note"]] != [q[:3] for q in y["note"]]: return [V("callbacks", f"callbacks ran at {x['note'][:20]} in one piece, at {y['note'][:20]} in {len(c['parts'])}")]
        s, d1 = scen.merge([x["state"] for x in a]); t, d2 = scen.merge([x["state"] for x in b])
        if d1 or d2: return [V("patches", f"patches {d1 or d2} on two ranks")]
        v = scen.compare_states(c, s, t, 1e-9, f"run in {len(c['parts'])} pieces against one")
        if v: return [v]
        for k, x in a[0]["ext"].items():
            y = b[0]["ext"][k]
            if (x is None) != (y is None) or x is not None and not scen.close(x, y, 1e-9) <= 1e-9: return [V("density", "the density extracted by a callback differs between one piece and several")]
        return []
    def shrink(self, c):
        for k in range(len(c["feats"])): yield dict(c, feats=c["feats"][:k] + c["feats"][k + 1:])
        for k in range(len(c["parts"]) - 1):
            q = c["parts"][:k] + c["parts"][k + 1:]
            if not any(p.get("stop") for p in q): yield dict(c, parts=q)
        if c["lb"] is not None: yield dict(c, lb=None)
        if c["cbs"]: yield dict(c, cbs=False)
        for q in scen.shrink_grid(c):
            if q["steps"] == c["steps"] and len(q["species"]) == len(c["species"]):
                q = dict(q, parts=[dict(p, ranks=[r for r in p["ranks"] if r < q["nranks"]]) if p.get("stop") else p for p in q["parts"]])
                if all(not p.get("stop") or p["ranks"] for p in q["parts"]): yield q
PROP = P23()
