"""P19, P20: the covariances against the terms CoffeCovariance arrives at."""
import math
import multiprocessing as mp
import random

import numpy as np
from numpy.polynomial.legendre import leggauss, legval
from scipy.interpolate import CubicSpline
from scipy.special import spherical_jn

import pool
import sums
import terms
import theory
import tlc

PARTS = ("cosmic", "mixed", "poisson")
NK = 120001
_G = {}


class Radial:
    """Int dk k^2 w_l1(k r1) w_l2(k r2) P^power for one spectrum; w are spherical Bessel functions or their averages over shells."""

    def __init__(self, pk, kmin, kmax, nk=NK):
        u = np.linspace(math.log(kmin), math.log(kmax), nk)
        self.k = np.exp(u)
        w = np.full(nk, (u[1] - u[0]) / 3)
        w[1:-1:2] *= 4
        w[2:-1:2] *= 2
        p = pk(self.k)
        self.w = {n: w * self.k ** 3 * p ** n for n in (1, 2)}

    def function(self, l, r, pixel, spec):
        if not pixel:
            return spherical_jn(l, self.k * r)
        env = {"r": r, "pixel": pixel}
        a, b = theory.ev(spec["inner"], env), theory.ev(spec["outer"], env)
        volume = theory.ev(spec["shell"], env)
        # enough nodes for all oscillations over the shell
        out = np.empty_like(self.k)
        for n, lo, hi in ((24, 0, 12.0), (60, 12.0, 60.0), (400, 60.0, 600.0), (1500, 600.0, 1e9)):
            at = (self.k * (b - a) >= lo) & (self.k * (b - a) < hi)
            if not at.any():
                continue
            x, w = leggauss(n)
            x, w = a + (b - a) * (x + 1) / 2, w * (b - a) / 2
            k = self.k[at]
            out[at] = sum(wi * xi * xi * spherical_jn(l, k * xi) for xi, wi in zip(x, w)) / volume
        return out


def _functions(a):
    i, l, r, pixel = a
    radial, spec = _G["radial"][i], _G["spec"]
    return radial.function(l, r, pixel, spec)


def angular(l1, l2, factor, env):
    """1/2 Int dmu L_l1 L_l2 factor, by a rule that is exact for polynomials."""
    x, w = leggauss(24)
    c = lambda n: np.eye(1, n + 1, n)[0]
    f = w * legval(x, c(l1)) * legval(x, c(l2)) * theory.ev(factor, {**env, "x": x * x}) / 2
    return float(np.sum(f)), float(np.sum(abs(f)))


class Expectation:
    """One request: model, settings; gives value and scale of each entry, by part."""

    def __init__(self, spec, model, case, integrals):
        self.spec, self.m, self.c, self.integrals = spec, model, case, integrals
        self.terms = next(t["terms"] for t in spec["terms"] if t["pops"] == case["pops"])

    def volume(self, i):
        c, co = self.c, self.m.cosmo
        env = {"pi": math.pi, "fsky": c["fsky"][i]}
        if c["average"]:
            x, w = leggauss(40)
            z = c["zmin"][i] + (c["zmax"][i] - c["zmin"][i]) * (x + 1) / 2
            f = theory.ev(self.spec["volume_integrand"], {"H0": theory.H0 * self.m.kw["h"], "H": co.H(z) * (1 + z), "chi": co.chi(z)})
            return theory.ev(self.spec["average_volume"], {**env, "integral": float(np.sum(w * f)) * (c["zmax"][i] - c["zmin"][i]) / 2})
        return theory.ev(self.spec["volume"], {**env, "near": float(co.chi(c["z"][i] - c["dz"][i])), "far": float(co.chi(c["z"][i] + c["dz"][i]))})

    def entry(self, i, l1, n1, l2, n2):
        """Value of each part, and its size if everything were as correlated as can be."""
        c, co, spec = self.c, self.m.cosmo, self.spec
        out = {p: 0.0 for p in PARTS}
        size = {p: 0.0 for p in PARTS}
        if (l1 + l2) % 2:
            return out, size
        z = c["z"][i]
        env = {"D": float(co.D(z)), "f": float(co.f(z)) if "rsd" in c["effects"] else 0.0, "n1": c["n1"][i], "n2": c["n2"][i]}
        for s, q in enumerate(c["pops"]):
            env[f"b{s + 1}"] = float(self.m.galaxy[q - 1](z)) if "density" in c["effects"] else 0.0
        sign = (-1) ** ((l1 - l2) // 2)
        pre = theory.ev(spec["prefactor"], {"l1": l1, "l2": l2, "sign": sign, "pi": math.pi, "volume": self.volume(i)})
        pixel = c["pixel"][i] if c["binned"] else 0
        for t in self.terms:
            if t["part"] not in c["parts"]:
                continue
            a, most = angular(l1, l2, t["factor"], env)
            a *= (-1) ** l2 if t["mirrored"] else 1
            if t["power"]:
                I = lambda x, y: self.integrals[(self.c["model"], t["power"], pixel, *sorted((x, y)))]
                v = I((l1, c["sep"][n1]), (l2, c["sep"][n2]))
                top = math.sqrt(I((l1, c["sep"][n1]), (l1, c["sep"][n1])) * I((l2, c["sep"][n2]), (l2, c["sep"][n2])))
            else:
                e = {"pi": math.pi, "r": c["sep"][n1], "pixel": c["pixel"][i]}
                v = 0.0
                if l1 == l2 and n1 == n2:
                    v = theory.ev(spec["plain"], e)
                    if c["binned"]:
                        v = theory.ev(spec["binned"], e)
                top = v
            out[t["part"]] += pre * a * v
            size[t["part"]] += abs(pre) * most * top
        return out, size


def case(rnd, models, average, method="standard", binned=None):
    mi = rnd.randrange(len(models))
    nb = rnd.choice([1, 1, 2, 3])
    nl = rnd.choice([1, 2, 2, 3])
    l = rnd.sample([0, 2, 4] if rnd.random() < 0.4 else list(range(10)), nl)
    sep = [round(math.exp(rnd.uniform(math.log(4), math.log(320))), 4) for _ in range(rnd.choice([1, 2, 3]))]
    binned = rnd.random() < 0.4 if binned is None else binned
    u = rnd.uniform
    c = {"model": mi, "average": average, "method": method, "binned": binned, "l": l, "sep": sep,
         "z": [], "dz": [], "zmin": [], "zmax": [],
         "n1": [10 ** u(-5, -2) for _ in range(nb)], "n2": [10 ** u(-5, -2) for _ in range(nb)],
         "fsky": [u(0.05, 1) for _ in range(nb)], "pixel": [u(1, 30) for _ in range(nb)],
         "pops": rnd.choice([[1, 1, 1, 1], [1, 2, 1, 2], [1, 2, 2, 1], [1, 1, 1, 2], [1, 2, 1, 1], [1, 1, 2, 2], [2, 1, 2, 1], [1, 3, 1, 4], [rnd.randint(1, 4) for _ in range(4)]]),
         "parts": rnd.choice([PARTS, PARTS, PARTS, ("cosmic",), ("mixed",), ("poisson",), ("cosmic", "mixed"), ("mixed", "poisson"), ("cosmic", "poisson")]),
         "effects": rnd.choice([("density", "rsd")] * 3 + [("density",), ("rsd",), ("density", "rsd", "lensing"), ("rsd", "d1")])}
    if binned:          # shells around each separation
        c["sep"] = [max(s, 0.55 * max(c["pixel"])) for s in sep]
    if len(set(c["sep"])) < len(c["sep"]):
        c["sep"] = sorted(set(c["sep"]), reverse=True)
    for _ in range(nb):
        z = rnd.choice([0.15, 0.5, 1.0, 1.8, 3.5]) * u(0.8, 1.2)
        dz = z * u(0.02, 0.6)
        c["z"].append(z)
        c["dz"].append(dz)
        c["zmin"].append(z - dz)
        c["zmax"].append(z + dz)
    if average:
        c["z"] = [(a + b) / 2 for a, b in zip(c["zmin"], c["zmax"])]
    return c


def settings(c, extra=None):
    s = [("sep", c["sep"]), ("l", c["l"]), ("number_density1", c["n1"]), ("number_density2", c["n2"]), ("fsky", c["fsky"]), ("pixelsize", c["pixel"]),
         ("deltaz", c["dz"]), ("covariance_populations", c["pops"]), ("has_binned_covariance", c["binned"])]
    s += [("z_min", c["zmin"]), ("z_max", c["zmax"])] if c["average"] else [("z_mean", c["z"])]
    s += [("covariance_" + p, p in c["parts"]) for p in PARTS]
    if c.get("type"):
        s.append(("integration_1d_type", c["type"]))
    if c["method"] == "fftlog":
        s += [("covariance_integration_method", "fftlog"), ("covariance_integration_sampling", c["bins"]), ("covariance_interpolation_method", c["interp"])]
    return [{"e": "set", "o": 1, "s": k, "v": v} for k, v in s + list(extra or [])]


def integrals(models, spec, cases):
    """All radial integrals the cases need, each function computed once."""
    need, fns = set(), set()
    for c in cases:
        for pixel in (set(c["pixel"]) if c["binned"] else {0}):
            at = [(l, r) for l in c["l"] for r in c["sep"]]
            fns |= {(c["model"], l, r, pixel) for l, r in at}
            for x in at:
                for y in at:
                    if (x[0] + y[0]) % 2 == 0:
                        need |= {(c["model"], n, pixel, *sorted((x, y))) for n in (1, 2)}
    _G["radial"] = [Radial(m.pk, m.kmin, m.kmax) for m in models]
    _G["spec"] = spec
    fns = sorted(fns)
    with mp.get_context("fork").Pool(8) as p:
        got = dict(zip(fns, p.map(_functions, fns, chunksize=2)))
    return {key: float(np.sum(_G["radial"][key[0]].w[key[1]] * got[(key[0], *key[3], key[2])] * got[(key[0], *key[4], key[2])])) for key in need}


LABELS = {False: ["z", "l1", "r1", "l2", "r2"], True: ["z_min", "z_max", "l1", "r1", "l2", "r2"]}


def describe(c):
    return ", ".join(f"{k}={v}" for k, v in c.items() if not (k in ("zmin", "zmax") and not c["average"]) and not (k == "z" and c["average"]))


def models_of(rnd):
    out = []
    for kind in ("lcdm", "w0wa"):
        m = terms.Model(rnd, kind)
        m.galaxy = [m.bias[0]["b"], m.bias[1]["b"]]
        for _ in range(2):
            co = [rnd.uniform(0.5, 2.5), rnd.uniform(0.1, 0.8)]
            m.galaxy.append(lambda z, co=co: co[0] + co[1] * z)
        out.append(m)
    return out


def new(m, c):
    op = m.new(c["effects"])
    op["set"] = op["set"] + [(f"galaxy_bias{i}", [terms.ZB, [m.galaxy[i - 1](z) for z in terms.ZB]]) for i in (3, 4)]
    return op


def check(ctx, average):
    mc = tlc.model_check("CoffeCovariance")
    spec = tlc.export("CoffeCovarianceExport")
    rnd = random.Random(ctx.seed * 101 + (20 if average else 19))
    models = models_of(rnd)
    jobs = [{"id": f"bg{i}", "ops": [m.new(["density"])] + m.table_ops()} for i, m in enumerate(models)]
    rep = pool.run_jobs(ctx.build, jobs)
    for i, m in enumerate(models):
        r = rep[f"bg{i}"]
        if "dead" in r or any("err" in x for x in r["out"]):
            ctx.violation(f"the background cannot be evaluated: {str(r)[:400]}")
            return
        m.cosmo = m.cosmology([x["ok"] for x in r["out"][1:]])
    cases = [case(rnd, models, average) for _ in range(ctx.q(36, 160))]
    # every population assignment, cheaply
    for pops in [t["pops"] for t in spec["terms"]] if ctx.thorough else rnd.sample([t["pops"] for t in spec["terms"]], 24):
        c = case(rnd, models, average, binned=False)
        c.update(pops=pops, l=rnd.sample(range(0, 5), 2), sep=c["sep"][:1], parts=PARTS, effects=("density", "rsd"))
        cases.append(c)
    for _ in range(ctx.q(6, 24)):
        c = case(rnd, models, average, "fftlog", False)
        # sampled finely enough to resolve where the separations are equal
        c.update(bins=rnd.choice([512, 600, 700]), interp=rnd.choice(["bilinear", "bicubic"]), sep=[math.exp(rnd.uniform(math.log(6), math.log(36))) for _ in c["sep"]])
        cases.append(c)
    # the other method integrates few oscillations only
    for _ in range(ctx.q(4, 16)):
        c = case(rnd, models, average, binned=False)
        c.update(type="exponential", sep=[math.exp(rnd.uniform(math.log(4), math.log(14))) for _ in c["sep"]])
        cases.append(c)
    I = integrals(models, spec, cases)
    ctx.log(f"{len(cases)} requests, {len(I)} integrals")
    call = "compute_average_covariance_bulk" if average else "compute_covariance_bulk"
    jobs = [{"id": str(i), "ops": [new(models[c["model"]], c)] + settings(c) + [{"e": "call", "o": 1, "m": call}]} for i, c in enumerate(cases)]
    rep = pool.run_jobs(ctx.build, jobs, timeout=600)
    ctx.log("evaluated by the package")
    worst = sums.Worst()
    n = 0
    for i, c in enumerate(cases):
        r = rep[str(i)]
        if "dead" in r or any("ok" not in x for x in r["out"]):
            ctx.violation(f"covariance of {describe(c)}: {r.get('dead') or [x for x in r['out'] if 'ok' not in x][0]}", replay=str(jobs[i])[:2000])
            continue
        got = r["out"][-1]["ok"]
        n += 1
        if judge(ctx, spec, models, c, got, I, worst):
            ctx.sample(f"{describe(c)}: {str(got)[:200]}")
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=n)
    ctx.worst = worst.d


def judge(ctx, spec, models, c, got, I, worst):
    e = Expectation(spec, models[c["model"]], c, I)
    order = [(i, l1, a, l2, b) for i in range(len(c["fsky"])) for l1 in c["l"] for a in range(len(c["sep"])) for l2 in c["l"] for b in range(len(c["sep"]))]
    if len(got) != len(order):
        ctx.violation(f"covariance of {describe(c)}: {len(got)} entries instead of {len(order)}")
        return False
    for g, (i, l1, a, l2, b) in zip(got, order):
        label = {"z": c["z"][i], "z_min": c["zmin"][i], "z_max": c["zmax"][i], "l1": l1, "r1": c["sep"][a], "l2": l2, "r2": c["sep"][b]}
        for k in LABELS[c["average"]]:
            if g[k] != label[k]:
                ctx.violation(f"covariance of {describe(c)}: an entry is labelled {k}={g[k]} where {label[k]} belongs")
                return False
        parts, size = e.entry(i, l1, a, l2, b)
        want, top = sum(parts.values()), sum(size.values())
        lim = (5e-5 * abs(want) + 5e-6 * top) * (20 if c.get("type") else 1) if c["method"] == "standard" else (1e-2 if c["interp"] == "bicubic" else 5e-2) * top
        v = g["value"]
        err = abs(v - want) if sums.number(v) else math.inf
        name = f"l{l1} l{l2} r{c['sep'][a]} r{c['sep'][b]} bin {i}"
        worst((c["method"], c.get("interp"), c.get("type"), "binned" if c["binned"] else "plain", "l" + str(max(l1, l2))), err, lim, name + " " + describe(c), v, want, top)
        if not err <= lim:
            ctx.violation(f"covariance of {describe(c)}: {name} is {v!r}, the terms give {want:.9g} ({', '.join(f'{k} {x:.4g}' for k, x in parts.items() if k in c['parts'])})")
            return False
    return True


def p19(ctx):
    check(ctx, False)


def p20(ctx):
    check(ctx, True)
