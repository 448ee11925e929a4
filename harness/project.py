"""P12, P13: multipoles as projections of the correlation function, averaged multipoles as averages of multipoles."""
import math
import random

import numpy as np

import pool
import sums
import terms

LEG = [np.polynomial.legendre.Legendre.basis(l) for l in range(12)]


class Bench12(sums.Bench):
    """Requests: the correlation function at the nodes of a quadrature, and the multipoles."""

    def __init__(self, rnd, kind, sampling, n, zr, ls):
        super().__init__(rnd, kind, sampling=sampling)
        x, w = np.polynomial.legendre.leggauss(n // 2)      # in halves: lensing terms depend on |mu| near the line across
        u, du = (x + 1) / 2, w / 2                           # and on sqrt(1 - mu^2) along it
        mu = np.cos(np.pi / 2 * u * u)
        dmu = np.sin(np.pi / 2 * u * u) * np.pi * u * du
        self.nodes, self.weights = np.concatenate([-mu, mu[::-1]]), np.concatenate([dmu, dmu[::-1]])
        self.zr = zr
        self.ls = [l for l in ls if l < 10]
        self.pts = [(z, r, float(mu)) for z, r in zr for mu in self.nodes]
        self.mps = [(z, r, l) for z, r in zr for l in ls]
        self.alll = ls

    def project(self, corr):
        """[(value, scale)] for the requests of multipoles."""
        n = len(self.nodes)
        out = []
        for i, _ in enumerate(self.zr):
            xi = np.array(corr[i * n:(i + 1) * n])
            for l in self.alll:
                w = self.weights * LEG[l](self.nodes) * (2 * l + 1) / 2
                out.append((float(np.sum(w * xi)), float(np.sum(np.abs(w * xi)))))
        return out


TOL12 = {"local": 1e-5, "single": 1e-2, "double": 2.5e-2}


def p12(ctx):
    mc = sums.model(ctx)
    rnd = random.Random(ctx.seed * 101 + 12)
    worst = sums.Worst()
    n = asks = 0
    every = sums.cases()
    one = [c for c in every if len(c["terms"]) == 1 and (c["cross"] or len(c["on"]) == 1)]
    local = [c for c in one if not set(c["on"]) & sums.INT]
    rest = [c for c in one if set(c["on"]) & sums.INT]
    # combinations: all that are on at most pairwise, with their own terms, and every switch
    both = [c for c in every if len(c["terms"]) > 1 and set(c["on"]) <= sums.FLATTERMS and (ctx.thorough or rnd.random() < 0.5)]
    if not ctx.thorough:        # flat switches on terms they do not touch: P18
        rest = [c for c in rest if not c["flat"] or any(t[2] != "full" for t in c["terms"])]
        local = [c for c in local if not c["flat"] or any(t[2] != "full" for t in c["terms"])]
    zr = [(rnd.uniform(0.2, 0.4), rnd.uniform(8, 30)), (rnd.uniform(0.8, 1.6), rnd.uniform(50, 110)), (rnd.uniform(1.8, 2.6), rnd.uniform(160, 260))]
    for name, cs, sampling, nodes, pts, ls in (
            ("local", local, 5000, 60, zr, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10]),
            ("single", [c for c in rest if len(set(c["on"]) & sums.INT) != len(c["on"])], ctx.q(200000, 800000), ctx.q(40, 80), zr[1:2] if not ctx.thorough else zr, [0, 1, 2, 3, 4]),
            ("double", [c for c in rest if set(c["on"]) <= sums.INT], ctx.q(20000, 400000), ctx.q(24, 60), zr[1:2], [0, 1, 2, 3]),
            ("sets", both, ctx.q(20000, 400000), ctx.q(24, 40), zr[1:2], [0, 1, 2, 3])):
        bench = Bench12(rnd, rnd.choice(["lcdm", "w0wa"]), sampling, nodes, pts, ls)
        if name == "single":        # one-dimensional; the double integral of nothing
            bench.sampling = {"corrfunc": 500, "multipole": sampling}
        vals = sums.run_cases(ctx, bench, cs)
        ctx.log(f"{name}: {len(cs)} cases evaluated")
        for i, c in enumerate(cs):
            cf, mp = vals[i]["corrfunc"], vals[i]["multipole"]
            if cf is None or mp is None:
                continue
            label = f"{c['on']}{' cross' if c['cross'] else ''} {c['flat']}"
            if not all(sums.number(x) for x in cf):
                ctx.violation(f"{label}: the correlation function has no value: {[(p, x) for p, x in zip(bench.pts, cf) if not sums.number(x)][:2]}")
                continue
            n += 1
            kind = max((sums.kind_of(t) if t[2] == "full" else "local" for t in c["terms"]), key=("local", "single", "double").index)
            forms = {t[2] for t in c["terms"]}
            want = bench.project(cf)
            for (z, r, l), (v, s), g in zip(bench.mps, want, mp):
                if l == 10 and {"flatsky_local_nonlocal", "flatsky_nonlocal"} & set(c["flat"]):
                    continue        # only the configured ones have flat-sky tables
                asks += 1
                err = abs(g - v) if sums.number(g) else math.inf
                lim = (TOL12[kind] if kind != "local" or "limber" not in forms else 2e-4) * s + 1e-25
                worst((name, kind, "limber" in forms), err, lim, label, (z, r, l), g, v, s)
                if not err <= lim:
                    ctx.violation(f"{label}: the multipole {l} at z={z:.4g} r={r:.4g} is {g!r}, the projection of the correlation function {v:.9g} (parts {s:.3g})")
                    break
        ctx.sample(f"{cs[-1]['on']} {cs[-1]['flat']}: {mp[:3]} against {want[:3]}")
    sums.report(ctx, mc, n, asks, worst)


class Average:
    """What CoffeAverage says about averages, evaluated on the package's own background functions."""

    def __init__(self, spec, zs, chi, hub):
        from scipy.interpolate import CubicSpline
        self.spec = spec
        self.chi, self.z = CubicSpline(zs, chi), CubicSpline(chi, zs)
        self.E = CubicSpline(zs, np.array(hub) / hub[0])

    def range(self, lo, hi, r):
        env = {"near": float(self.chi(lo)), "far": float(self.chi(hi)), "r": r}
        import theory
        return float(self.z(theory.ev(self.spec["from"], env))), float(self.z(theory.ev(self.spec["to"], env)))

    def nodes(self, lo, hi, r, n):
        """Mean redshifts and the factors of the multipoles there."""
        import theory
        z1, z2 = self.range(lo, hi, r)
        x, w = np.polynomial.legendre.leggauss(n)
        z = (z2 - z1) * (x + 1) / 2 + z1
        return [float(a) for a in z], [float(a) for a in w / 2 * theory.ev(self.spec["weight"], {"E": self.E(z)})]


TOL13 = {"local": 2e-3, "single": 2e-2, "double": 4e-2}


def bins(rnd):
    """Thin bins, bins about as deep as the separations, deep ones, near and far."""
    out = []
    for z, d in ((rnd.uniform(0.15, 0.25), 0.05), (rnd.uniform(0.5, 0.9), 0.002), (rnd.uniform(0.8, 1.2), rnd.uniform(0.08, 0.15)),
                 (rnd.uniform(0.9, 1.3), rnd.uniform(0.4, 0.8)), (rnd.uniform(2.5, 3.5), rnd.uniform(0.3, 1.5))):
        out.append((z - d / 2, z + d / 2))
    return out


def p13(ctx):
    import tlc
    mc = tlc.model_check("CoffeAverage")
    spec = tlc.export("CoffeAverageExport")
    rnd = random.Random(ctx.seed * 101 + 13)
    one = [c for c in sums.cases() if len(c["terms"]) == 1 and (c["cross"] or len(c["on"]) == 1)]
    one = [c for c in one if not c["flat"] or any(t[2] != "full" for t in c["terms"])]
    worst = sums.Worst()
    n = asks = 0
    models = [terms.Model(rnd, k) for k in ("lcdm", "w0wa")]
    zs = [float(z) for z in np.concatenate([np.linspace(0, 1, 401)[:-1], np.linspace(1, 9, 801)])]
    rep = pool.run_jobs(ctx.build, [{"id": str(i), "ops": [m.new(["density"])] + [{"e": "calls", "o": 1, "m": f, "args": [[z] for z in zs]}
                                                                                for f in ("comoving_distance", "hubble_rate")]} for i, m in enumerate(models)])
    for i, m in enumerate(models):
        m.average = Average(spec, zs, *[x["ok"] for x in rep[str(i)]["out"][1:]])
    jobs, plan = [], []
    groups = {}
    for c in one:
        k = sum(e in sums.INT for e in c["on"])
        kind = "local" if k == 0 else "single" if k < len(c["on"]) else "double"
        key = tuple(e for e in c["on"] if e not in terms.CHEAP)
        # the same function is averaged whatever contributes to it: combinations are sampled, those of one or with density are not
        if not ctx.thorough and (len(key) > 1 or key and kind == "single") and "density" not in c["on"] and rnd.random() < 0.8:
            continue
        if not ctx.thorough and c["flat"] and rnd.random() < 0.6:
            continue
        groups.setdefault((kind, key, rnd.randint(0, 3) if not set(key) - {"d1"} else 0), []).append(c)
    for (kind, key, part), cs in sorted(groups.items(), key=lambda g: -len(g[0][1])):
        m = rnd.choice(models)
        state = set()
        bs = bins(rnd)
        if kind != "local" and not ctx.thorough:
            bs = rnd.sample(bs, 2 if kind == "single" else 1)
        seps = [rnd.uniform(10, 40), rnd.uniform(80, 160)] if kind == "local" or ctx.thorough else [rnd.uniform(30, 110)]
        ls = [0, 1, 2] + ([rnd.choice([3, 4]), rnd.choice([5, 6, 7])] if kind == "local" else [])
        samp = {"local": ctx.q(15000, 300000), "single": ctx.q(40000, 500000), "double": ctx.q(30000, 400000)}[kind]
        msamp = {"local": 1000, "single": ctx.q(20000, 200000), "double": ctx.q(20000, 200000)}[kind]
        q = {"local": 8, "single": 3, "double": 3}[kind]
        # the near edge may not come too close to the observer
        bs = [b for b in bs if m.average.chi(b[0]) > max(seps) * 1.5]
        ops = [m.new(cs[0]["on"], z_min=[b[0] for b in bs], z_max=[b[1] for b in bs], sep=seps, l=ls)]
        state = set(cs[0]["on"])
        where = []
        for c in cs:
            want = set(c["on"]) | set(c["flat"]) | ({"only_cross_correlations"} if c["cross"] else set())
            ops += sorted(({"e": "set", "o": 1, "s": "has_" + s, "v": s in want} for s in sorted(state ^ want)), key=lambda o: not o["v"])
            state = want
            ops.append({"e": "set", "o": 1, "s": "integration_sampling", "v": samp})
            ops.append({"e": "ask", "o": 1, "k": "ampb"})
            a = len(ops) - 1
            nodes = {(b, r): m.average.nodes(*b, r, q) for b in bs for r in seps}
            ops.append({"e": "set", "o": 1, "s": "integration_sampling", "v": msamp})
            ops.append({"e": "calls", "o": 1, "m": "compute_multipole",
                        "args": [{"z": z, "r": r, "l": l} for b in bs for l in ls for r in seps for z in nodes[b, r][0]]})
            where.append((c, a, len(ops) - 1, nodes))
        jobs.append({"id": f"{kind}/{'/'.join(key)}/{part}", "ops": ops})
        plan.append((kind, m, bs, seps, ls, where))
    rep = pool.run_jobs(ctx.build, jobs, timeout=900)
    ctx.log(f"{len(jobs)} objects evaluated")
    for j, (kind, m, bs, seps, ls, where) in zip(jobs, plan):
        r = rep[j["id"]]
        if "dead" in r or any("err" in x for x in r["out"]):
            ctx.violation(f"{j['id']}: {[x for x in r.get('out', [r]) if 'err' in x or 'dead' in x][:1]}")
            continue
        for c, a, b, nodes in where:
            label = f"{c['on']}{' cross' if c['cross'] else ''} {c['flat']}"
            got, mp = r["out"][a]["ok"], r["out"][b]["ok"]
            if isinstance(got, str) or not all(sums.number(x) for x in mp) or len(got) != len(bs) * len(ls) * len(seps):
                ctx.violation(f"{label}: averaged multipoles {str(got)[:200]}, multipoles {str([x for x in mp if not sums.number(x)])[:100]}")
                continue
            n += 1
            at = 0
            res = []
            for bn in bs:
                for l in ls:
                    for sep in seps:
                        w = nodes[bn, sep][1]
                        v = mp[at:at + len(w)]
                        at += len(w)
                        res.append((bn, l, sep, sum(x * y for x, y in zip(w, v)), max(map(abs, v)) * sum(w)))
            # the accuracy of Monte Carlo is relative to the function integrated, not to its projection
            size = {}
            for bn, l, sep, v, s in res:
                size[bn, sep] = max(size.get((bn, sep), 0), s)
            for (bn, l, sep, v, s), g in zip(res, got):
                asks += 1
                err = abs(g[2] - v) if sums.number(g[2]) else math.inf
                lim = TOL13[kind] * math.sqrt(2 * l + 1) * size[bn, sep] + 1e-25
                worst((kind, bool(c["flat"])), err, lim, label, bn, l, sep, g[2], v, size[bn, sep])
                if not err <= lim:
                    ctx.violation(f"{label}: the average of the multipole {l} at r={sep:.4g} over {bn} is {g[2]!r}, the weighted multipoles give {v:.9g}")
                    break
        ctx.sample(f"{j['id']}: {len(where)} sets of contributions, bins {bs}")
    ctx.worst = worst.d
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=n, values_compared=asks)
