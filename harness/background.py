"""P15: the background functions against what CoffeBackground states."""
import math
import random

import numpy as np
from scipy.integrate import solve_ivp
from scipy.special import hyp2f1

import pool
import sums
import theory
import tlc

NAMES = ["scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "comoving_distance",
         "growth_factor", "growth_rate"]
# at the nodes of the table; the comoving distance and the growth are integrated numerically
TOL = {"scale_factor": 1e-12, "hubble_rate": 2e-5, "hubble_rate_conformal": 2e-5, "hubble_rate_conformal_derivative": 1e-4,
       "comoving_distance": 2e-5, "growth_factor": 1e-4, "growth_rate": 1e-4}


class Universe:
    """The expressions of the specification for one cosmology."""

    def __init__(self, spec, kw):
        self.spec = spec
        h = kw["h"]
        m, g = kw["omega_m"], kw["omega_gamma"]
        self.env = {"m": m, "g": g, "de": 1 - m - g, "w0": kw["w0"], "wa": kw["wa"], "H0": theory.H0 * h, "half": 0.5}
        f = self._growth
        a0 = theory.ev(spec["begin"], {})
        s = solve_ivp(f, (a0, 1.0), [a0, 1.0], method="DOP853", rtol=1e-11, atol=1e-13, dense_output=True)
        self.sol, self.norm = s.sol, s.y[0][-1]
        # the distance, on Gauss-Legendre panels in log(1 + z)
        x, w = np.polynomial.legendre.leggauss(16)
        self.edges = np.linspace(0, math.log(16.0), 201)
        d = self.edges[1] - self.edges[0]
        u = self.edges[:-1, None] + d * (x + 1) / 2
        q = self.expr("distance", np.exp(u) - 1) * np.exp(u)
        self.upto = np.concatenate([[0.0], np.cumsum(np.sum(q * w * d / 2, axis=1))])
        self.x, self.wq = x, w

    def expr(self, name, z):
        return theory.ev(self.spec[name], {**self.env, "z": np.asarray(z, float)})

    def _growth(self, a, y):
        z = 1 / a - 1
        env = {**self.env, "z": z, "a": a, "D": y[0], "D1": y[1]}
        env["M"] = theory.ev(self.spec["matter"], env)
        return [y[1], theory.ev(self.spec["growth"], env)]

    def distance(self, z):
        u = math.log1p(z)
        i = min(int(u / self.edges[1]), len(self.edges) - 2)
        d = u - self.edges[i]
        p = self.edges[i] + d * (self.x + 1) / 2
        return float(self.upto[i] + np.sum(self.expr("distance", np.exp(p) - 1) * np.exp(p) * self.wq) * d / 2)

    def value(self, name, z):
        if name == "comoving_distance":
            return self.distance(z)
        if name in ("growth_factor", "growth_rate"):
            a = 1 / (1 + z)
            D, D1 = self.sol(a)
            return float(D / self.norm) if name == "growth_factor" else float(theory.ev(self.spec["rate"], {"a": a, "D": D, "D1": D1}))
        return float(self.expr(name, z))

    def series(self, z):
        """The growing solution for constant w, summed where it converges fast: D, not normalised, and f."""
        m, w = self.env["m"], self.env["w0"]
        a, n = 1 / (1 + z), -3 * w
        X = (1 - m) / m * a ** n
        D = c = a
        f = c
        for k in range(1, 60):
            c = -c * X * theory.ev(self.spec["series"], {"k": k, "n": n})
            D, f = D + c, f + c * (1 + k * n)
        return D, f / D, X


def cosmologies(rnd, thorough):
    base = dict(omega_m=0.3, omega_baryon=0.05, omega_gamma=9e-5, h=0.67, w0=-1.0, wa=0.0, m_ncdm=0.0)
    u = rnd.uniform
    out = [("default", {}),
           ("cosmological constant", dict(omega_m=u(0.2, 0.4), h=u(0.5, 0.9))),
           ("matter only", dict(omega_m=1.0, omega_gamma=0.0, h=u(0.5, 0.9))),
           ("little matter", dict(omega_m=u(0.05, 0.12), omega_baryon=0.02)),
           ("much matter", dict(omega_m=u(0.7, 0.97))),
           ("much radiation", dict(omega_m=u(0.25, 0.5), omega_gamma=u(0.005, 0.05))),
           ("matter and radiation", dict(omega_m=0.96, omega_gamma=0.04)),
           ("w", dict(omega_m=u(0.2, 0.4), w0=u(-0.9, -0.6))),
           ("phantom", dict(omega_m=u(0.2, 0.4), w0=u(-1.4, -1.1))),
           ("w0 wa", dict(omega_m=u(0.2, 0.4), w0=u(-1.1, -0.8), wa=u(0.1, 0.5), omega_gamma=u(1e-4, 1e-3))),
           ("wa < 0", dict(omega_m=u(0.2, 0.4), w0=u(-1.0, -0.7), wa=u(-0.9, -0.2))),
           ("early dark energy", dict(omega_m=u(0.2, 0.4), w0=u(-1.0, -0.8), wa=u(0.6, 0.75))),
           ("neutrinos", dict(omega_m=u(0.25, 0.4), m_ncdm=u(0.05, 1.0), h=u(0.5, 0.9))),
           ("neutrinos, w0 wa", dict(omega_m=u(0.25, 0.4), m_ncdm=u(0.05, 1.0), w0=u(-1.2, -0.8), wa=u(-0.3, 0.3))),
           ("no radiation", dict(omega_gamma=0.0, omega_m=u(0.2, 0.4))),
           ("fast", dict(h=u(1.0, 2.0)))]
    if thorough:
        for i in range(60):
            m = u(0.05, 0.95)
            out.append((f"random {i}", dict(omega_m=m, omega_baryon=u(0, 1) * m * 0.5, omega_gamma=rnd.choice([0.0, min(0.6, u(0, 0.9) * (1 - m))]), h=u(0.3, 1.5),
                                            w0=u(-1.4, -0.4), wa=rnd.choice([0.0, u(-1, 0.3)]), m_ncdm=rnd.choice([0.0, u(0, 0.3)]))))
    return [(n, {**base, **kw}) for n, kw in out]


def p15(ctx):
    mc = tlc.model_check("CoffeBackground")
    spec = tlc.export("CoffeBackgroundExport")
    rnd = random.Random(ctx.seed * 101 + 15)
    worst = sums.Worst()
    n = 0
    # sampling of the table, method, and how often its nodes are hit
    sampling = [({}, 10000), ({"background_sampling": 4001}, 4001), ({"background_sampling": 10000, "integration_1d_type": "exponential"}, 10000),
                ({"background_sampling": 301}, 301), ({"background_sampling": 16}, 16), ({"integration_1d_prec": 1e-8}, 10000)]
    jobs, plan = [], {}
    for i, (name, kw) in enumerate(cosmologies(rnd, ctx.thorough)):
        some = sampling if ctx.thorough or name == "default" else [sampling[0]] + rnd.sample(sampling[1:], 1)
        for j, (extra, num) in enumerate(some):
            step = 15.0 / (num - 1)
            zs = [0.0, 15.0] + sorted({step * k for k in rnd.sample(range(num), min(num, 30))} | {step * k for k in range(min(num, 4))})
            zs = [min(z, 15.0) for z in zs]
            between = [rnd.uniform(0, 15) for _ in range(15)] + [rnd.uniform(0, 2) for _ in range(25)] + [rnd.uniform(0, 0.02) for _ in range(5)]
            if num < 1000:
                between = []
            seps = [(z, d) for z in (rnd.uniform(0.05, 1), rnd.uniform(1, 5)) for d in (0.0, z * rnd.uniform(0.01, 1), z)]
            kk = f"{i}-{j}"
            order = NAMES[:]
            rnd.shuffle(order)
            # the order of the settings must not matter
            items = list(kw.items()) if rnd.random() < 0.5 else sorted(kw.items(), key=lambda x: rnd.random())
            items.sort(key=lambda x: x[0] != "omega_gamma")          # radiation first: there must be room for the rest
            ops = [{"e": "new", "o": 1, "kw": {**dict(items), **extra}}]
            ops += [{"e": "calls", "o": 1, "m": m, "args": [[z] for z in zs + between]} for m in order]
            ops += [{"e": "calls", "o": 1, "m": "maximum_separation", "args": [[z, d] for z, d in seps]}]
            jobs.append({"id": kk, "ops": ops})
            plan[kk] = (name, kw, extra, order, zs, between, seps)
    rep = pool.run_jobs(ctx.build, jobs, timeout=300)
    ctx.log(f"{len(jobs)} backgrounds computed")
    known = {}
    for kk, (name, kw, extra, order, zs, between, seps) in plan.items():
        what = f"{name} ({', '.join(f'{a}={b:.6g}' for a, b in kw.items())}{', ' if extra else ''}{', '.join(f'{a}={b}' for a, b in extra.items())})"
        r = rep[kk]
        if "dead" in r or any("ok" not in x for x in r["out"]):
            ctx.violation(f"{what}: {r.get('dead') or [x for x in r['out'] if 'ok' not in x][0]}", replay=r)
            continue
        out = r["out"][1:]
        u = known.setdefault(name, None) or Universe(spec, kw)
        known[name] = u
        n += 1
        for m, o in zip(order, out):
            for i, (z, g) in enumerate(zip(zs + between, o["ok"])):
                want = u.value(m, z)
                # between nodes, interpolation
                lim = TOL[m] if i < len(zs) else max(TOL[m], 1e-6)
                scale = abs(want)
                if m == "hubble_rate_conformal_derivative":        # passes through zero
                    scale = max(scale, u.value("hubble_rate_conformal", z) ** 2)
                if m == "comoving_distance":
                    scale = max(scale, 1e-3 / u.env["H0"])
                err = abs(g - want) if sums.number(g) else math.inf
                worst((m, "node" if i < len(zs) else "between", name), err, lim * scale, what, z, g, want)
                if not err <= lim * scale:
                    ctx.violation(f"{what}: {m}({z:.9g}) is {g!r}, the equations give {want:.12g}")
                    break
            else:
                continue
            break
        # whatever the numbers: the growing solution in closed form
        if kw["wa"] == 0 and kw["m_ncdm"] == 0 and kw["omega_m"] >= 0.15:
            f = dict(zip(order, out))["growth_rate"]["ok"]
            D = dict(zip(order, out))["growth_factor"]["ok"]
            w, m0 = kw["w0"], kw["omega_m"]
            today = hyp2f1(-1 / (3 * w), (w - 1) / (2 * w), 1 - 5 / (6 * w), -(1 - m0) / m0)
            for z, gf, gd in zip(zs + between, f, D):
                d, rate, X = u.series(z)
                if X < 0.7:
                    lim = 3e-3
                    for nm, g, want in (("growth_rate", gf, rate), ("growth_factor", gd, d / today)):
                        worst(("closed form", nm, name), abs(g - want), lim, what, z, g, want)
                        if not abs(g - want) <= lim * want:
                            ctx.violation(f"{what}: {nm}({z:.9g}) is {g!r}, the growing solution in closed form {want:.9g}")
        for (z, d), g in zip(seps, out[-1]["ok"]) if between else ():
            want = theory.ev(spec["maximum_separation"], {"far": u.distance(z + d), "middle": u.distance(z)})
            if not (sums.number(g) and abs(g - want) <= 2e-5 * u.distance(z + d)):
                ctx.violation(f"{what}: maximum_separation({z:.9g}, {d:.9g}) is {g!r}, the distances give {want:.9g}")
        ctx.sample(f"{what}: H {out[order.index('hubble_rate')]['ok'][3]}, chi {out[order.index('comoving_distance')]['ok'][3]} at z={zs[3]:.5g}")
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=n)
    ctx.worst = worst.d
