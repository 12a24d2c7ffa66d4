"""P29 motion: every particle moves under the fields at its place, wherever it is."""
import numpy as np
from .. import scen, ref
from ..core import Prop, V, outcome_violations

TOL = 1e-9
class P29(Prop):
    id = "P29"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks (2D and 3D, any boundaries, several species, polarised, photons, QED, kicks, lasers, load balancing, disabled species, either kernel path); all particles before and after each push and the assembled E and B of that moment are compared, particle by particle, with a reference that interpolates from the undivided grid."
    assumptions = ["Particles whose shape reaches beyond an open end are judged by position only.", "Particles are recognised by their ids (P14)."]
    warm = staticmethod(ref.warm)
    def gen(self, rng, tier, i):
        c = ref.gen(rng, tier, mix=[m for m in scen.MIX if m])
        if c["e0"] == 0.0 and rng.random() < 0.5: c["e0"] = 1e12
        return c
    def execute(self, c, ctx):
        o = ctx.run(ref.program, c["nranks"], args=(c, ctx.dir(), "push"))
        v = outcome_violations(o, what="run")
        if v: return v
        vals = o.values(); dim = c["dim"]; L, d = scen.box(c); dt = vals[0]["dt"]; S = {it: g for _, it, g in ref.assemble(c, vals)}
        by = {}
        for v in vals:
            for kind, it, k, p in v["P"]: by.setdefault((it, kind, k), []).append(p)
        on = [k for k in range(len(c["species"])) if k not in c.get("dis", [])]
        for it in range(c["steps"]):
            if it not in S or (it, "before", None) not in by: return [V("step", f"step {it} was not made")]
            for k in range(len(c["species"])):
                b = np.concatenate([x[k] for x in by[it, "before", None]], 1)
                if k not in on:
                    if (it, "after", k) in by: return [V("disabled", f"step {it}: the disabled species {k} takes part")]
                    continue
                if len(by.get((it, "after", k), [])) != c["nranks"]: return [V("species", f"step {it}: species {k} was not advanced on every rank")]
                a = np.concatenate(by[it, "after", k], 1)
                b = b[:, np.argsort(b[-1].view(np.uint64))]; a = a[:, np.argsort(a[-1].view(np.uint64))]
                if a.shape != b.shape or (a[-1].view(np.uint64) != b[-1].view(np.uint64)).any(): return [V("set", f"step {it}: species {k} has {b.shape[1]} particles before the push and {a.shape[1]} after, or others")]
                if not np.isfinite(a[:-1]).all(): return [V("not-finite", f"step {it}: species {k} has particles that are not finite")]
                if not a.shape[1]: continue
                photon = c["species"][k]["kind"] == "photon"
                ub, gb = b[dim:dim + 3], b[dim + 3]; xh = b[:dim] + ref.C * dt / 2 * ub[:dim] * gb
                if photon: un = ub; edge = np.zeros(a.shape[1], bool)
                else:
                    edge = np.zeros(a.shape[1], bool)
                    for ax in range(dim):
                        if c["bc"][ax] != "p": q = xh[ax] / d[ax]; edge |= (q < 2) | (q > c["np"][ax] * c["nc"][ax] - 3)
                    un = ref.boris(ub, ref.interpolate(c, S[it], xh), vals[0]["q"][k], vals[0]["m"][k], dt)
                ua, ga = a[dim:dim + 3], a[dim + 3]
                fmax = max(np.abs(S[it]["e" + x]).max() for x in "xyz") + ref.C * max(np.abs(S[it]["b" + x]).max() for x in "xyz")
                sc = np.maximum(np.sqrt((ub ** 2).sum(0)), np.sqrt((un ** 2).sum(0))) + (0 if photon else abs(vals[0]["q"][k]) * dt / vals[0]["m"][k] / ref.C * fmax) + 1e-12
                e = np.abs(ua - un).max(0) / sc; e[edge] = 0
                if (e > TOL).any():
                    j = int(e.argmax()); return [V("momentum", f"step {it}: species {k}, particle at {(b[:dim, j] / np.array(d[:dim])).round(4).tolist()} cells: momentum {ub[:, j].tolist()} -> {ua[:, j].tolist()}, the fields there give {un[:, j].tolist()} ({int((e > TOL).sum())} of {e.size})")]
                g = 1 / np.sqrt((0 if photon else 1) + (ua ** 2).sum(0)) if not photon else gb
                if (np.abs(ga - g) > TOL * g).any(): return [V("gamma", f"step {it}: species {k}: stored 1/gamma does not belong to the momentum")]
                xn = xh + ref.C * dt / 2 * ua[:dim] * g; ex = np.abs(a[:dim] - xn) / np.array(d[:dim])[:, None]
                if (ex > TOL).any():
                    j = int(ex.max(0).argmax()); return [V("position", f"step {it}: species {k}: position {a[:dim, j].tolist()} after the push instead of {xn[:, j].tolist()} ({int((ex.max(0) > TOL).sum())} of {ex.shape[1]})")]
                if (a[-2] != b[-2]).any(): return [V("weight", f"step {it}: species {k}: weights change in the push")]
        return []
    shrink = staticmethod(ref.shrink)
PROP = P29()
