"""P34 momenta as asked: drift and temperature are given to the living particles of the species, exactly and with the right distribution, when asked, and nothing else changes."""
import os
import numpy as np
from .. import scen, mix
from ..core import Prop, V, outcome_violations

KB = 1.602176634e-19; C0 = scen.C0

def jobs(cfg, sim, root):
    """The callbacks of the script, with a look at all particles right before and after each."""
    from lambdapic import callback
    from lambdapic.callback.utils import SetMomentum, SetMomentumAndTemperature, SetTemperature
    out, rec = [], []
    def snap(s): return [[{**{a: np.asarray(getattr(part, a)).copy() for a in part.attrs}, "dead": np.asarray(part.is_dead).copy()} for part in p.particles] for p in s.patches]
    for k, a in enumerate(cfg["acts"]):
        sp = sim.species[a["s"]]; kw = {} if a["when"] is None else {"interval": mk(a["when"])}
        if a["add"] is not None: kw["add"] = a["add"]
        T = a.get("T"); T = T if T is None or not isinstance(T, list) else list(T)
        cb = SetMomentum(sp, list(a["u"]), **kw) if T is None else SetTemperature(sp, T, **kw) if a["u"] is None else SetMomentumAndTemperature(sp, list(a["u"]), T, **kw)
        if a["stage"]: cb.stage = a["stage"]
        stage = a["stage"] or "init"; hold = {}
        def before(s, hold=hold): hold["a"] = snap(s)
        def after(s, hold=hold, k=k): rec.append((k, s.itime, hold.pop("a"), snap(s), [p.index for p in s.patches]))
        out += [callback(stage=stage)(before), cb, callback(stage=stage)(after)]
    return out, rec
def mk(w): return (lambda s: s.itime in w) if isinstance(w, list) else w
def due(a, it):
    if a["when"] is None: return it == 0
    return it in a["when"] if isinstance(a["when"], list) else it % a["when"] == 0

def punch(sim, cfg, rank):
    """Dead slots among the living."""
    rng = np.random.default_rng([cfg["popseed"], 5, rank])
    for p in sim.patches:
        for part in p.particles:
            if rng.random() < 0.5:
                k = rng.random(part.npart) < 0.2; part.is_dead[k] = True
                if rng.random() < 0.5: part.x[k] = np.nan; part.y[k] = np.nan

def judge(cfg, sim, rec, bad, thermal):
    for k, it, pre, post, own in rec:
        a = cfg["acts"][k]; on = due(a, it); m = 0.0 if cfg["species"][a["s"]]["kind"] == "photon" else 1.0
        for ip, (P, Q) in enumerate(zip(pre, post)):
            for i, (x, y) in enumerate(zip(P, Q)):
                name = f"step {it} patch {own[ip]} {cfg['species'][i]['kind']}({i}), {what(a)}"; hit = on and i == a["s"]; al = ~x["dead"]
                for q in x:
                    if x[q].shape != y[q].shape: bad.append(("size", f"{name}: '{q}' changed its length")); return
                    ok = x[q].tobytes() == y[q].tobytes()
                    if ok: continue
                    if not hit: bad.append(("elsewhere", f"{name}: '{q}' changed although {'it is another species' if i != a['s'] else 'the callback is not due'}")); return
                    if q not in ("ux", "uy", "uz", "inv_gamma"): bad.append(("other-attribute", f"{name}: '{q}' changed")); return
                if not hit or not al.any(): continue
                u = np.array([y[q][al] for q in ("ux", "uy", "uz")]); u0 = np.array([x[q][al] for q in ("ux", "uy", "uz")]); u2 = (u ** 2).sum(axis=0)
                if not np.isfinite(u).all(): bad.append(("not-finite", f"{name}: momenta are not finite")); return
                g = np.where(u2 + m > 0, 1 / np.sqrt(np.where(u2 + m > 0, u2 + m, 1)), y["inv_gamma"][al])
                if not (np.abs(y["inv_gamma"][al] - g) <= 1e-12 * g).all(): j = np.argmax(np.abs(y["inv_gamma"][al] / g - 1)); bad.append(("gamma", f"{name}: 1/gamma is {y['inv_gamma'][al][j]:.6g} with momentum {u[:, j].tolist()}, {g[j]:.6g} belongs to it")); return
                base = (u0 if a["add"] else np.zeros_like(u)) + (np.array(a["u"])[:, None] if a["u"] is not None else 0.0); sc = np.abs(u).max() + np.abs(base).max() + 1e-300
                if a.get("T") is None:
                    if (np.abs(u - base) > 1e-12 * sc).any(): bad.append(("drift", f"{name}: momentum {u[:, np.abs(u - base).max(axis=0).argmax()].tolist()} instead of {base[:, np.abs(u - base).max(axis=0).argmax()].tolist()}")); return
                else: thermal.append((k, u - base, float(sc)))

def what(a): return ("add " if a["add"] else "set ") + ("momentum " + str(a["u"]) if a["u"] is not None else "") + (f" temperature {a['T']} eV" if a.get("T") is not None else "")

def program(rank, cfg, root):
    sim = scen.build(cfg); punch(sim, cfg, rank); bad, th = [], []
    for n in cfg["cut"]:
        cbs, rec = jobs(cfg, sim, root); sim.run(nsteps=n, callbacks=mix.make(sim, cfg, cfg["feats"], root, {}) + cbs)
        judge(cfg, sim, rec, bad, th)
    return bad[:2], th

def resumed(rank, cfg, root):
    from lambdapic.callback.restart import RestartDump
    d = os.path.join(root, "f0"); sim = RestartDump.load(os.path.join(d, sorted(os.listdir(d))[-1])); bad, th = [], []
    cbs, rec = jobs(cfg, sim, root); sim.run(nsteps=1, callbacks=cbs); judge(cfg, sim, rec, bad, th)
    return bad[:2], th

_T = {}
def juttner_cdf(theta):
    """Distribution of |u| at temperature theta, on a grid."""
    if theta not in _T:
        hi = np.sqrt((1 + 60 * theta) ** 2 - 1); u = np.linspace(0, hi, 200001)[1:]; g = np.sqrt(1 + u * u)
        f = u * u * np.exp(-(g - 1) / theta); c = np.cumsum(f); _T[theta] = (u, c / c[-1])
    return _T[theta]
def ks(x, cdf):
    """Distance between a sample and a distribution, and the distance that is exceeded by chance once in 1e13."""
    x = np.sort(x); n = x.size; F = cdf(x); D = max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())
    return D, np.sqrt(np.log(2 / 1e-13) / (2 * n))

def stat(cfg, sets):
    """sets: thermal momenta per act, of all ranks and times."""
    from scipy.special import ndtr
    for k, a in enumerate(cfg["acts"]):
        S = [(u, sc) for kk, u, sc in sets if kk == k]
        if not S: continue
        u = np.concatenate([x for x, _ in S], axis=1); n = u.shape[1]; noise = max(s for _, s in S) * 1e-14
        s = cfg["species"][a["s"]]; mc2 = mass(s) * 510998.95; T = a["T"] if isinstance(a["T"], list) else [a["T"]] * 3; th = np.array(T) / mc2
        for q in range(3):
            if T[q] == 0 and (np.abs(u[q]) > noise).any(): return V("cold", f"{what(a)}: {'xyz'[q]} is to be cold, momenta up to {np.abs(u[q]).max():.3g} (mean square {np.mean(u[q]**2):.3g})")
        if n < 200 or noise > 1e-3 * np.sqrt(max(th)): continue
        tests = []
        if T[0] == T[1] == T[2] and T[0] > 0:
            g, c = juttner_cdf(th[0]); tests.append(("size of the momentum", np.sqrt((u ** 2).sum(axis=0)), lambda x: np.interp(x, g, c)))
            r = np.sqrt((u ** 2).sum(axis=0)); r[r == 0] = 1
            for q in range(3): tests.append((f"direction ({'xyz'[q]})", u[q] / r, lambda x: (np.clip(x, -1, 1) + 1) / 2))
        elif max(th) <= 0.01:
            for q in range(3):
                if T[q] > 0: tests.append((f"momentum along {'xyz'[q]}", u[q], lambda x, q=q: ndtr(x / np.sqrt(th[q]))))
        for name, x, f in tests:
            D, lim = ks(x, f); slack = 0.01 + min(max(th), 0.01)    # the documented approximations of cold and warm plasmas
            if D > lim + slack: return V("distribution", f"{what(a)}, species {s['kind']}: the {name} of {n} particles is {D:.3g} off the distribution of that temperature ({lim + slack:.3g} allowed), mean square {[float(np.mean(v ** 2)) for v in u]} for kT/mc2 = {th.tolist()}")
        if n > 500:
            ref = u / np.maximum(np.sqrt((u ** 2).mean(axis=1)), 1e-300)[:, None]
            for p, q in ((0, 1), (0, 2), (1, 2)):
                if T[p] and T[q]:
                    for nm, x, y in (("", ref[p], ref[q]), (" sizes", np.abs(ref[p]), np.abs(ref[q]))):
                        r = abs(np.corrcoef(x, y)[0, 1])
                        if r > 0.25 + 8 / np.sqrt(n) if nm else r > 0.05 + 8 / np.sqrt(n): return V("correlated", f"{what(a)}: the{nm} momenta along {'xyz'[p]} and {'xyz'[q]} are correlated ({r:.3g}, {n} particles)")
        if n > 20:
            v = np.round(u[0], 300) if T[0] else u[1]
            if T[0] and np.unique(u[0]).size < 0.9 * n and noise < 1e-6 * np.sqrt(th[0]): return V("repeated", f"{what(a)}: {n} particles have only {np.unique(u[0]).size} different momenta")
    return None
def mass(s): return {"electron": 1.0, "positron": 1.0, "proton": 1836.15267}.get(s["kind"], s.get("mass", 10.0))

class P34(Prop):
    id = "P34"; quick_s = 20.0
    rule = "A case draws a simulation on 1-5 ranks with massive species and photons and dead slots, and one to three callbacks that set or add drifts and temperatures (zero, cold, relativistic, different along the axes), at the first step or at others, in runs cut into pieces and continued from a checkpoint; all particles are compared right before and after each, and the thermal momenta of all ranks with the distribution."
    assumptions = ["Random draws are judged by tests that a right distribution fails once in 1e13, with 1-2% allowed for the documented approximations.", "Temperatures that differ along the axes are judged only where they are not relativistic (kT <= 0.01 mc2).", "The times are those of the default (first step only), of an interval in steps, or of a predicate, at stages that run in every step; an interval at the stage 'init' is not judged."]
    def warm(self):
        from .p08 import warm_restart
        scen.warm_full(); warm_restart(); import scipy.special, scipy.stats, scipy.optimize
    def gen(self, rng, tier, i):
        c = scen.gen_full(rng, mix=[[]]); kinds = rng.choice([["electron"], ["electron", "proton"], ["ion", "electron"], ["photon", "electron"], ["electron", "photon", "positron"]])
        c["species"] = [dict(kind=k, name=f"s{j}", n=rng.choice([10, 500, 4000]), u=rng.choice([0.0, 0.1, 5.0]), edge=0.1, wscale=1.0, clump=rng.choice([0, 5]), mass=25.0) for j, k in enumerate(kinds)]
        for x in c["species"]:
            if x["kind"] == "photon": x["u"] = max(x["u"], 0.1)     # a photon without momentum is none
        massive = [j for j, k in enumerate(kinds) if k != "photon"]; c["acts"] = []
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(["u", "T", "T", "uT"]); s = rng.randrange(len(kinds)) if kind == "u" else rng.choice(massive)
            m = mass(c["species"][s]); th = rng.choice([1e-6, 1e-4, 2e-3, 0.009, 0.05, 0.3, 0.49, 0.6, 2.0, 50.0]) * m * 510998.95
            if kind == "u": T = None
            elif rng.random() < 0.25: th = rng.choice([1e-6, 1e-4, 2e-3]) * m * 510998.95; T = [th * f for f in rng.choice([(1, 2, 0.5), (1, 0, 0), (0, 1, 1), (4, 1, 0), (1, 1, 3), (0, 0, 0)])]
            else: T = rng.choice([th, th, th, th, 0, 0.0])
            u = None if kind == "T" else [rng.choice([0.0, 0.5, -1.0, 20.0, 1e-3]) for _ in range(3)]
            if c["species"][s]["kind"] == "photon": u[rng.randrange(3)] = 0.7
            stage = rng.choice([None, None, "start", "maxwell_1", "end"])
            c["acts"].append(dict(s=s, u=u, T=T, add=rng.choice([None, False, True]), stage=stage, when=rng.choice([None, None, [0, 2], [1], 2]) if stage else None))
        c["cut"] = rng.choice([[1], [2], [1, 1], [1, 2]]); c["lb"] = rng.choice([None, None, 1e-6]); c["feats"] = []
        if rng.random() < 0.2: c["feats"] = [dict(f="ckpt", iv=1, keep=None)]
        return c
    def execute(self, c, ctx):
        root = ctx.dir()
        for k, prog in enumerate((program, resumed)[:2 if c["feats"] else 1]):
            w = "continued job" if k else "run"
            o = ctx.run(prog, c["nranks"], args=(c, root), name="continued" if k else "run")
            v = outcome_violations(o, what=w)
            if v: return v
            for r, (bad, th) in enumerate(o.values()):
                if bad: return [V(("restart:" if k else "") + bad[0][0], f"{w}, rank {r}: {bad[0][1]}")]
            v = stat(c, [x for _, th in o.values() for x in th])
            if v: return [v]
        return []
    def shrink(self, c):
        if c["feats"]: yield dict(c, feats=[])
        if c["lb"] is not None: yield dict(c, lb=None)
        for k in range(len(c["acts"])):
            if len(c["acts"]) > 1: yield dict(c, acts=c["acts"][:k] + c["acts"][k + 1:])
        if len(c["cut"]) > 1: yield dict(c, cut=c["cut"][:1])
        for q in scen.shrink_grid(c):
            if len(q["species"]) == len(c["species"]): yield q
PROP = P34()
