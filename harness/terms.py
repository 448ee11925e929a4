"""P10, P11: every pair of contributions against what the specification CoffeTerms derives."""
import math
import multiprocessing as mp
import random

import numpy as np

import pool
import theory
import tlc

EFFECTS = ["density", "rsd", "d1", "d2", "g1", "g2", "g3", "lensing", "g4", "g5"]
ZB = [round(0.12 * i, 6) for i in range(60)]
_T = None


def spec():
    global _T
    if _T is None:
        _T = theory.Terms(tlc.export("CoffeTermsExport"))
    return _T


class Model:
    """One configuration: cosmology, spectrum, biases of both populations; all seeded."""

    def __init__(self, rnd, kind):
        self.kind = kind
        self.kw = dict(omega_m=rnd.uniform(0.25, 0.36), omega_baryon=rnd.uniform(0.04, 0.06), omega_gamma=rnd.choice([9e-5, 3e-4]),
                       h=rnd.uniform(0.6, 0.75), background_sampling=3000, integration_sampling=300000)
        if kind != "lcdm":
            self.kw.update(w0=rnd.uniform(-1.15, -0.85), wa=rnd.uniform(-0.2, 0.2), m_ncdm=rnd.choice([0.0, 0.15]))
        amp, keq, tilt, cut = rnd.uniform(0.6e6, 1.6e6), rnd.uniform(0.012, 0.02), rnd.uniform(0.92, 1.0), rnd.uniform(2.5, 3.5)

        def pk(k):
            q = k / keq / 5
            t = np.log(1 + 2.34 * q) / (2.34 * q) * (1 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (6.71 * q) ** 4) ** -0.25
            return amp * (k / keq) ** tilt * t * t * np.exp(-(k / cut) ** 2)
        self.pk = pk
        self.kmin, self.kmax = 1e-5, 12.0
        self.k = [float(x) for x in np.geomspace(self.kmin, self.kmax, 1500)]
        self.p = [float(x) for x in pk(np.array(self.k))]

        def fn(a, b, c):
            co = (rnd.uniform(*a), rnd.uniform(*b), rnd.uniform(*c))
            return lambda z: co[0] + co[1] * z + co[2] * z * z
        self.bias = [{"b": fn((0.8, 1.8), (0.2, 0.7), (0, 0.05)), "s": fn((0.1, 0.7), (-0.1, 0.2), (-0.02, 0.02)),
                      "e": fn((-0.6, 0.6), (-0.3, 0.4), (-0.02, 0.02))} for _ in range(2)]

    def new(self, effects, **kw):
        """Worker operations that make an object with these contributions only."""
        sets = []
        for i, b in enumerate(self.bias):
            for n, f in (("galaxy", "b"), ("magnification", "s"), ("evolution", "e")):
                sets.append((f"{n}_bias{i + 1}", [ZB, [b[f](z) for z in ZB]]))
        return {"e": "new", "o": 1, "kw": {**self.kw, **{"has_" + e: e in effects for e in EFFECTS}, **kw},
                "set": sets + [("pk", [self.k, self.p])]}

    def zgrid(self):
        return [float(x) for x in np.concatenate([np.linspace(0, 1, 401)[:-1], np.linspace(1, 7, 601)])]

    def table_ops(self):
        return [{"e": "calls", "o": 1, "m": m, "args": [[z] for z in self.zgrid()]} for m in theory.Cosmology.NAMES]

    def cosmology(self, cols):
        # the potential is sourced by cold matter (cdm and baryons)
        nu = self.kw.get("m_ncdm", 0.0) / 93.14 / self.kw["h"] ** 2
        return theory.Cosmology(np.array(self.zgrid()), [np.array(c) for c in cols], self.kw["omega_m"] - nu, self.kw["h"])


def _build_kernels(args):
    model, qs, ren = args
    return theory.Kernels(model.pk, model.kmin, model.kmax, qs, ren=ren)


def prepare(ctx, models, T, effects=None, ren=True):
    """Background tables from the package, kernels from the spectra."""
    jobs = [{"id": f"bg{i}", "ops": [m.new(["density"])] + m.table_ops()} for i, m in enumerate(models)]
    rep = pool.run_jobs(ctx.build, jobs)
    for i, m in enumerate(models):
        r = rep[f"bg{i}"]
        if "dead" in r or any("err" in x for x in r["out"]):
            ctx.violation(f"the background cannot be evaluated: {str(r)[:400]}")
            return False
        m.cosmo = m.cosmology([x["ok"] for x in r["out"][1:]])
    with mp.get_context("fork").Pool(8) as p:
        for m in models:
            m.K = theory.Kernels(m.pk, m.kmin, m.kmax, T.qs(effects), ren=(m.cosmo.chimax if ren else None), pool=p)
    return True


def points(rnd, n, rmin=2.0, rmax=600.0):
    """Redshift, separation and angle: near and far, along and across the line of sight; both points between the observer and z = 7."""
    out = []
    while len(out) < n:
        z = rnd.choice([0.05, 0.15, 0.35, 0.7, 1.0, 1.6, 2.5, 4.0, 5.5]) * rnd.uniform(0.9, 1.1)
        r = math.exp(rnd.uniform(math.log(rmin), math.log(rmax)))
        if r > 1500 * z or (z > 4.9 and r > 250):
            continue
        mu = rnd.choice([0.0, 1.0, -1.0, 0.5, rnd.uniform(-0.95, 0.95), rnd.uniform(-0.95, 0.95), rnd.uniform(-0.95, 0.95)])
        out.append((z, r, mu))
    return out


_CTX = {}


def _expect(a):
    mi, e1, e2, pt = a
    m, T = _CTX["models"][mi], _CTX["T"]
    z, r, mu = pt
    return T.pair(e1, e2, m.cosmo, m.K, m.bias[0], m.bias[1], z, r, mu)


def expectations(models, T, work):
    _CTX["models"], _CTX["T"] = models, T
    with mp.get_context("fork").Pool(8) as p:
        return p.map(_expect, work, chunksize=4)


def judge_pairs(ctx, configs, models, T, tol):
    """configs: (model index, contributions on, [(pair, points)]) -> compares the package with the specification."""
    jobs, where = [], []
    for ci, (mi, on, parts) in enumerate(configs):
        m = models[mi]
        ops = [m.new(on[0])]
        for step, (effects, cross, pair, pts) in enumerate(parts):
            ops += [{"e": "set", "o": 1, "s": "has_" + e, "v": e in effects} for e in EFFECTS if (e in effects) != (e in (on[0] if step == 0 else parts[step - 1][0]))]
            ops.append({"e": "set", "o": 1, "s": "has_only_cross_correlations", "v": cross})
            ops.append({"e": "calls", "o": 1, "m": "compute_corrfunc", "args": [{"z": z, "r": r, "mu": mu} for z, r, mu in pts]})
            where.append((ci, len(ops) - 1, mi, pair, pts))
        jobs.append({"id": str(ci), "ops": ops})
    work = [(mi, *pair, pt) for _, _, mi, pair, pts in where for pt in pts]
    ctx.log(f"{len(jobs)} objects, {len(work)} points")
    rep = pool.run_jobs(ctx.build, jobs, timeout=600)
    ctx.log("evaluated by the package")
    want = expectations(models, T, work)
    ctx.log("evaluated by the specification")
    it = iter(want)
    worst = {}
    n = 0
    for ci, oi, mi, pair, pts in where:
        r = rep[str(ci)]
        name = "-".join(pair)
        if "dead" in r:
            ctx.violation(f"{name}: {r['dead']} {r.get('stderr', '')[-200:]}", config=str(configs[ci])[:500])
            for _ in pts:
                next(it)
            continue
        bad = [x for x in r["out"] if "err" in x]
        got = r["out"][oi].get("ok") if not bad else None
        for k, pt in enumerate(pts):
            v, s = next(it)
            n += 1
            if got is None:
                ctx.violation(f"{name} at z,r,mu={pt}: {bad[0]}")
                break
            g = got[k]
            ok = isinstance(g, (int, float)) and math.isfinite(g)
            err = abs(g - v) if ok else math.inf
            lim = tol(pair, v, s, pt)
            worst[name] = max(worst.get(name, (0, 0)), (err / lim if lim else math.inf, pt, g, v, s))
            if err > lim:
                if pair == ("d1", "d1") and ok and known_d1(models[mi], pt, g, v, s) and ctx.finding("d1-d1"):
                    continue
                ctx.violation(f"{name} at z={pt[0]:.4g} r={pt[1]:.5g} mu={pt[2]:.4g}: {g!r}, the specification says {v:.8g} (parts {s:.3g})",
                              model=models[mi].kw, pair=pair, point=pt)
    ctx.worst = worst
    st = tlc.model_check("CoffeDerivation")
    ctx.add(states=st["states"], transitions=st["transitions"])
    for ci, oi, mi, pair, pts in where[:2]:
        ctx.sample({"pair": pair, "point": pts[0], "value": str(rep[str(ci)]["out"][oi] if "out" in rep[str(ci)] else "")[:60]})
    return n


def known_d1(m, pt, g, v, s):
    """Is g the value of the listed wrong formula: the term with j_2 with the opposite sign and the legs exchanged?"""
    z, r, mu = pt
    co = m.cosmo
    T = spec()
    chi = float(co.chi(z))
    x1, x2 = chi - r * mu / 2, chi + r * mu / 2
    c = (2 * chi * chi - r * r + mu * mu * r * r / 2) / (2 * chi * chi - mu * mu * r * r / 2)
    a = T.amp("d1", co, float(co.z(x1)), x1, m.bias[0]) * T.amp("d1", co, float(co.z(x2)), x2, m.bias[1])
    # c/3 (k^-2 j_0 + k^-2 j_2) is K(4,1) c; the package has c/3 (I00 - ...) with  -((x2 - x1 c)(x1 - x2 c) + r^2 c/3) I22
    i22 = float(m.K(4, 2, r))                       # Int k^2 P k^-2 ... j_2/(kr)^2 k^2
    k41 = float(m.K(4, 1, r))
    i00 = 3 * k41 - r * r * i22                     # j_0 = 3 j_1/x - j_2
    wrong = a * (c / 3 * i00 - ((x2 - x1 * c) * (x1 - x2 * c) + r * r * c / 3) * i22)
    return abs(g - wrong) <= 2e-3 * (abs(wrong) + abs(a * c / 3 * i00) + abs(a * r * r * i22)) / 2


LOCAL = EFFECTS[:7]
INT = EFFECTS[7:]
CHEAP = ("density", "rsd", "lensing")      # switching these does not discard the integrals


def configs_for(pairs, mi, pts):
    """Groups pairs so that the slow divergent integrals are computed rarely: (model, on, parts)."""
    out = {}
    for a, b in pairs:
        key = tuple(sorted({a, b} - set(CHEAP), key=EFFECTS.index))
        out.setdefault(key, []).append(({a, b}, a != b, (a, b), pts((a, b))))
    res = []
    for key, parts in out.items():
        parts.sort(key=lambda p: len(p[0]))
        res.append((mi, [parts[0][0]], parts))
    res.sort(key=lambda c: not any(T in ("d2", "g1", "g2", "g3", "g4", "g5") for T in c[2][0][0]))
    return res


def all_pairs():
    return [(a, b) for i, a in enumerate(EFFECTS) for b in EFFECTS[i:]]


def p10(ctx):
    T = spec()
    rnd = random.Random(ctx.seed * 101 + 10)
    models = [Model(rnd, "lcdm"), Model(rnd, "w0wa")]
    if not prepare(ctx, models, T, LOCAL):
        return
    local = [(a, b) for a, b in all_pairs() if a in LOCAL and b in LOCAL]
    configs = []
    for mi in range(len(models)):
        configs += configs_for(local, mi, lambda p: points(rnd, ctx.q(10, 40)))

    def tol(pair, v, s, pt):
        return (1e-3 if pt[1] > 5 else 5e-3) * abs(v) + 1e-4 * s
    n = judge_pairs(ctx, configs, models, T, tol)
    ctx.add(traces_validated_against_impl=n, pairs=len(local), points=n)


def p11(ctx):
    T = spec()
    rnd = random.Random(ctx.seed * 101 + 11)
    models = [Model(rnd, "w0wa")]
    if not prepare(ctx, models, T):
        return
    pairs = [(a, b) for a, b in all_pairs() if a in INT or b in INT]
    configs = configs_for(pairs, 0, lambda p: points(rnd, ctx.q(4 if p[0] in INT and p[1] in INT else 10, 24)))

    def tol(pair, v, s, pt):
        if pair[0] in INT and pair[1] in INT:        # Monte Carlo in two dimensions
            return 1e-2 * abs(v) + 5e-4 * s
        return 2e-3 * abs(v) + 2e-4 * s
    n = judge_pairs(ctx, configs, models, T, tol)
    ctx.add(traces_validated_against_impl=n, pairs=len(pairs), points=n)
