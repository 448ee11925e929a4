"""P09, P14, P18 (and the values P12 projects): requests of CoffeSignal's histories and cases on the package."""
import concurrent.futures as cf
import json
import math
import random

import numpy as np

import pool
import terms
import theory
import tlc

EFFECTS = terms.EFFECTS
INT = set(terms.INT)
SWITCH = ("flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal")
BIAS = (("galaxy", "b"), ("magnification", "s"), ("evolution", "e"))


def cases(small=None):
    out = tlc.export("CoffeSignalHistory", args=("-simulate", "num=1", "-depth", "2"))
    res = []
    for c in out:
        c["terms"] = [(t["a"], t["b"], t["form"]) for t in c["terms"]]
        c["on"] = sorted(c["on"], key=EFFECTS.index)
        c["flat"] = sorted(c["flat"])
        if small is None or set(c["on"]) <= small:
            res.append(c)
    res.sort(key=lambda c: (len(c["flat"]), len(c["on"]), c["on"], c["cross"], c["flat"]))
    return res


def histories(n, seed, pool_, flat=False, exchange=False, depth=26):
    """Random behaviours of CoffeSignalHistory."""
    import os
    cfg = (tlc.SPEC / "CoffeSignalHistory.cfg").read_text()
    cfg = cfg.replace('{"density", "rsd", "d1", "lensing"}', "{" + ", ".join(f'"{e}"' for e in pool_) + "}")
    cfg = cfg.replace("AllowFlat = FALSE", f"AllowFlat = {str(flat).upper()}").replace("AllowExchange = FALSE", f"AllowExchange = {str(exchange).upper()}")
    cfg = cfg.replace("Depth = 26", f"Depth = {depth}")
    out = tlc.tlc("CoffeSignalHistory", ("-simulate", f"num={n}", "-depth", str(depth + 1), "-seed", str(seed), "-workers", "1"), cfgtext=cfg)
    hs = tlc.printed(out, "HISTORY")
    for h in hs:
        for e in h:
            if e["e"] == "ask":
                e["terms"] = [(t["a"], t["b"], t["form"]) for t in e["terms"]]
    return hs


class Bench:
    """A model, the points asked for, and how to ask."""

    def __init__(self, rnd, kind="lcdm", sampling=5000, npts=3, ls=(0, 1, 2, 3)):
        self.m = terms.Model(rnd, kind)
        self.sampling = None
        self.m.kw["integration_sampling"] = sampling
        pts = [(0.9, 45.0, 0.6), (0.5, 120.0, 0.0), (1.4, 230.0, -0.35), (0.3, 20.0, 0.95), (2.2, 80.0, -0.8)][:npts]
        self.pts = [(z * rnd.uniform(0.9, 1.1), r * rnd.uniform(0.9, 1.1), mu) for z, r, mu in pts]
        self.pts += [(z, r, -mu) for z, r, mu in self.pts]
        self.mirror = [(i + npts) % (2 * npts) for i in range(2 * npts)]
        self.ls = list(ls)
        zr = (rnd.uniform(0.7, 1.1), rnd.uniform(40, 90))
        self.mps = [(*zr, l) for l in ls]

    def new(self, effects, swapped=False, same=False, **kw):
        op = self.m.new(effects, l=self.ls, **kw)
        if swapped or same:
            s = []
            for i in (0, 1):
                b = self.m.bias[0 if same else 1 - i]
                s += [(f"{n}_bias{i + 1}", [terms.ZB, [b[f](z) for z in terms.ZB]]) for n, f in BIAS]
            op["set"] = s + [x for x in op["set"] if x[0] == "pk"]
        return op

    def swap(self, swapped):
        return [{"e": "set", "o": 1, "s": f"{n}_bias{i + 1}", "v": [terms.ZB, [self.m.bias[(1 - i) if swapped else i][f](z) for z in terms.ZB]]}
                for i in (0, 1) for n, f in BIAS]

    def ask(self, kind):
        if kind == "corrfunc":
            return {"e": "calls", "o": 1, "m": "compute_corrfunc", "args": [{"z": z, "r": r, "mu": mu} for z, r, mu in self.pts]}
        return {"e": "calls", "o": 1, "m": "compute_multipole", "args": [{"z": z, "r": r, "l": l} for z, r, l in self.mps]}

    def switch(self, old, new):
        return [{"e": "set", "o": 1, "s": "has_" + s, "v": s in new} for s in sorted(old ^ new)]


def groups(cs):
    """Cases by the contributions that discard the integrals."""
    out = {}
    for i, c in enumerate(cs):
        out.setdefault(tuple(e for e in c["on"] if e not in terms.CHEAP), []).append(i)
    return sorted(out.items(), key=lambda g: -len(set(g[0]) - {"d1"}))


def run_cases(ctx, bench, cs, swapped=False, same=False, kinds=("corrfunc", "multipole")):
    """{case index: {kind: values}}; None where an operation failed (then a violation is recorded)."""
    jobs, where = [], {}
    for key, idx in groups(cs):
        first = cs[idx[0]]
        state = set(first["on"]) | set(first["flat"]) | ({"only_cross_correlations"} if first["cross"] else set())
        ops = [bench.new(first["on"], swapped, same, **{"has_" + f: True for f in first["flat"]}, has_only_cross_correlations=first["cross"])]
        for i in idx:
            c = cs[i]
            want = set(c["on"]) | set(c["flat"]) | ({"only_cross_correlations"} if c["cross"] else set())
            # switch on before switching off, so that the integrals are kept
            ops += sorted(bench.switch(state, want), key=lambda o: not o["v"])
            state = want
            for k in kinds:
                if bench.sampling:
                    ops.append({"e": "set", "o": 1, "s": "integration_sampling", "v": bench.sampling[k]})
                ops.append(bench.ask(k))
                where[(i, k)] = ("/".join(key), len(ops) - 1)
        jobs.append({"id": "/".join(key), "ops": ops})
    rep = pool.run_jobs(ctx.build, jobs, timeout=900)
    out = {}
    for (i, k), (jid, n) in where.items():
        r = rep[jid]
        c = cs[i]
        if "dead" in r:
            ctx.violation(f"{c['on']}: {r['dead']} {r.get('stderr', '')[-200:]}")
            v = None
        elif any("err" in x for x in r["out"][:n + 1]):
            ctx.violation(f"{c['on']}: {[x for x in r['out'][:n + 1] if 'err' in x][0]}")
            v = None
        else:
            v = r["out"][n]["ok"]
        out.setdefault(i, {})[k] = v
    return out


def isolated(ctx, cs, vals):
    """The value of each term by itself: the cases that consist of one term."""
    iso = {}
    for i, c in enumerate(cs):
        if len(c["terms"]) == 1 and c["terms"][0] not in iso:
            iso[c["terms"][0]] = vals[i]
    return iso


def number(x):
    return isinstance(x, (int, float)) and math.isfinite(x)


def kind_of(t):
    n = (t[0] in INT) + (t[1] in INT)
    return "local" if n == 0 else "single" if n == 1 else "double"


TOL = {"corrfunc": {"local": 1e-7, "single": 1e-5, "double": 2e-3},
       "multipole": {"local": 1e-7, "single": 5e-3, "double": 2e-2}}


#: where the integration variables are exchanged too, Monte Carlo integrals agree to their accuracy only
TOL14 = {"corrfunc": {"local": 1e-7, "single": 1e-5, "double": 2e-3},
         "multipole": {"local": 1e-7, "single": 5e-3, "double": 3e-2}}


#: the switches add tables, which can move the nodes of others
TOL18 = {"corrfunc": {"local": 1e-4, "single": 3e-4, "double": 2e-2},
         "multipole": {"local": 1e-4, "single": 5e-3, "double": 2e-2}}


def expected(iso, ts, kind, i, tols=TOL):
    """Sum of isolated terms at the i-th point, and the tolerance."""
    v = lim = 0.0
    for t in ts:
        x = iso[t][kind]
        if x is None or not number(x[i]):
            return None, None
        v += x[i]
        k = kind_of(t)
        lim += (abs(x[i]) if kind == "corrfunc" else max(map(abs, x))) * (tols[kind][k] if t[2] == "full" else 1e-4)
    return v, lim + 1e-14 * 1e-6


class Worst:
    def __init__(self):
        self.d = {}

    def __call__(self, key, err, lim, *info):
        q = err / lim if lim else (0.0 if err == 0 else math.inf)
        if q >= self.d.get(key, (-1,))[0]:
            self.d[key] = (q, *info)


def judge_value(ctx, bench, iso, ts, kind, got, label, worst, mirrored=False, tols=TOL):
    """Compares the values of one request with the sums of its terms."""
    n = 0
    pts = bench.pts if kind == "corrfunc" else bench.mps
    for i, pt in enumerate(pts):
        j, sg = i, 1
        if mirrored:
            j, sg = (bench.mirror[i], 1) if kind == "corrfunc" else (i, (-1) ** pt[2])
        v, lim = expected(iso, ts, kind, j, tols)
        if v is None:
            ctx.violation(f"{label}: a term alone has no value at {pts[j]}: {[(t, iso[t][kind]) for t in ts][:3]}")
            return n
        v *= sg
        g = got[i] if got is not None else None
        n += 1
        err = abs(g - v) if number(g) else math.inf
        worst((kind, max([kind_of(t) for t in ts], key=("local", "single", "double").index, default="none")), err, lim, label, pt, g, v)
        if not err <= lim:
            ctx.violation(f"{label}: {kind} at {tuple(round(x, 5) for x in pt)} is {g!r}, its {len(ts)} terms sum to {v:.9g} (tolerance {lim:.2g})", terms=ts)
            return n
    return n


def replay(ctx, bench, hs, iso, label, worst, tols=TOL):
    """Histories of toggles and requests on one object each."""
    jobs = []
    for hi, h in enumerate(hs):
        ops = [bench.new(["density"])]
        sw = False
        at = [0]
        for e in h[1:]:
            if e["e"] == "toggle":
                ops.append({"e": "set", "o": 1, "s": e["s"], "v": e["v"]})
            elif e["e"] == "reset":
                ops.append({"e": "call", "o": 1, "m": "reset_contributions"})
            elif e["e"] == "exchange":
                sw = not sw
                ops += bench.swap(sw)
            else:
                ops.append(bench.ask(e["k"]))
            at.append(len(ops) - 1)
        jobs.append(({"id": f"h{hi}", "ops": ops}, at))
    rep = pool.run_jobs(ctx.build, [j for j, _ in jobs], timeout=900)
    n = 0
    for hi, h in enumerate(hs):
        r = rep[f"h{hi}"]
        if "dead" in r:
            ctx.violation(f"{label} {hi}: {r['dead']} {r.get('stderr', '')[-200:]}", history=h)
            continue
        for e, a in zip(h, jobs[hi][1]):
            o = r["out"][a]
            if "err" in o:
                ctx.violation(f"{label} {hi}: {e['e']} {e.get('s', '')} failed: {o}", history=h)
                break
            if e["e"] != "ask":
                continue
            if e["refused"]:
                n += 1
                if any(number(x) for x in o["ok"]) or not all(str(x).startswith("error ValueError") for x in o["ok"]):
                    ctx.violation(f"{label} {hi}: with nothing switched on, {e['k']} gives {o['ok']}", history=h)
                    break
                continue
            k = len(ctx.violations)
            n += judge_value(ctx, bench, iso, e["terms"], e["k"], o["ok"], f"{label} {hi} with {sorted(e['on'])}", worst, e["mirrored"], tols)
            if len(ctx.violations) > k:
                ctx.violations[-1]["history"] = h
                break
    return n


def model(ctx):
    """The specification's own invariants, in the background."""
    ex = cf.ThreadPoolExecutor(1)
    return ex.submit(tlc.model_check, "CoffeSignal")


def report(ctx, mc, n, asks, worst):
    st = mc.result()
    ctx.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=n, values_compared=asks)
    ctx.worst = worst.d


def p09(ctx):
    mc = model(ctx)
    rnd = random.Random(ctx.seed * 101 + 9)
    bench = Bench(rnd)
    cs = [c for c in cases() if not c["flat"]]
    vals = run_cases(ctx, bench, cs)
    ctx.log(f"{len(cs)} cases evaluated")
    iso = isolated(ctx, cs, vals)
    worst = Worst()
    n = asks = 0
    for i, c in enumerate(cs):
        for k in ("corrfunc", "multipole"):
            n += 1
            asks += judge_value(ctx, bench, iso, c["terms"], k, vals[i][k], f"{c['on']}{' cross' if c['cross'] else ''}", worst)
    hs = histories(ctx.q(28, 150), ctx.seed, ["density", "rsd", "d1", "lensing"])
    hs += histories(ctx.q(6, 40), ctx.seed + 1, EFFECTS, depth=14)
    asks += replay(ctx, bench, hs, iso, "history", worst)
    ctx.sample(str([{k: v for k, v in e.items() if k in ("e", "s", "v", "k")} for e in hs[0]]))
    report(ctx, mc, n + len(hs), asks, worst)


def p14(ctx):
    mc = model(ctx)
    rnd = random.Random(ctx.seed * 101 + 14)
    bench = Bench(rnd, sampling=40000)
    every = cases()
    cs = [c for c in every if not c["flat"] and (c["cross"] or len(c["on"]) == 1) and c["terms"]]
    cheap = {"density", "rsd", "d1", "lensing"}
    cs += [c for c in every if c["flat"] and set(c["on"]) <= cheap and len(c["terms"]) == 1]
    vals = run_cases(ctx, bench, cs)
    ctx.log("evaluated")
    iso = isolated(ctx, cs, vals)
    swapped = run_cases(ctx, bench, cs, swapped=True)
    ctx.log("evaluated with the populations exchanged")
    worst = Worst()
    n = asks = 0
    for i, c in enumerate(cs):
        for k in ("corrfunc", "multipole"):
            n += 1
            asks += judge_value(ctx, bench, iso, c["terms"], k, swapped[i][k], f"{c['on']} {c['flat']} exchanged", worst, mirrored=True, tols=TOL14)
    # identical populations: even in mu, odd multipoles vanish
    few = [c for c in cs if set(c["on"]) <= cheap] + [c for c in cs if set(c["on"]) & INT and len(set(c["on"]) - cheap) == 1][:ctx.q(6, 100)]
    same = run_cases(ctx, bench, few, same=True)
    h = len(bench.pts) // 2
    for i, c in enumerate(few):
        t = c["terms"][0]
        v = same[i]["corrfunc"]
        if v is None:
            continue
        n += 2
        for j in range(h):
            lim = TOL14["corrfunc"][kind_of(t)] * max(abs(v[j]), abs(v[j + h])) + 1e-20
            asks += 1
            worst(("same", kind_of(t)), abs(v[j] - v[j + h]), lim, t, bench.pts[j], v[j], v[j + h])
            if not abs(v[j] - v[j + h]) <= lim:
                ctx.violation(f"{t} for identical populations: {v[j]!r} at {bench.pts[j]}, {v[j + h]!r} at the opposite mu")
        v = same[i]["multipole"]
        if v is None:
            continue
        top = max(abs(x) for x in v)
        for (z, r, l), x in zip(bench.mps, v):
            if l % 2:
                asks += 1
                lim = TOL14["multipole"][kind_of(t)] * top + 1e-20
                worst(("odd", kind_of(t)), abs(x), lim, t, l, x, top)
                if not abs(x) <= lim:
                    ctx.violation(f"{t} for identical populations: multipole {l} at z={z:.4g} r={r:.4g} is {x!r} (largest {top:.3g})")
    hs = histories(ctx.q(20, 100), ctx.seed, sorted(cheap), exchange=True)
    hs += histories(ctx.q(10, 60), ctx.seed, sorted(cheap), flat=True, exchange=True)
    asks += replay(ctx, bench, hs, {t: v for t, v in iso.items()}, "history", worst, TOL14)
    ctx.sample(str([{k: v for k, v in e.items() if k in ("e", "s", "v", "k")} for e in hs[0]]))
    report(ctx, mc, n + len(hs), asks, worst)


FLATTERMS = {"density", "rsd", "d1", "lensing"}


def p18(ctx):
    """The forms the switches select, each against its formula; and every other term as it was."""
    mc = model(ctx)
    T = terms.spec()
    rnd = random.Random(ctx.seed * 101 + 18)
    bench = Bench(rnd, kind="w0wa", npts=5, ls=(0, 1, 2, 3, 4))
    if not terms.prepare(ctx, [bench.m], T, FLATTERMS, ren=False):
        return
    J = theory.Transverse(bench.m.pk, bench.m.kmin, bench.m.kmax)
    ctx.log("prepared")
    few = [e for e in EFFECTS if e in FLATTERMS or e in ctx.q({"d2", "g1", "g4"}, set(EFFECTS))]
    cs = [c for c in cases() if set(c["on"]) <= set(few)]
    vals = run_cases(ctx, bench, cs)
    ctx.log(f"{len(cs)} cases evaluated")
    iso = isolated(ctx, cs, vals)
    worst = Worst()
    n = asks = 0
    m = bench.m
    b1, b2 = m.bias
    nodes, weights = np.polynomial.legendre.leggauss(80)
    leg = [np.polynomial.legendre.Legendre.basis(l) for l in range(6)]
    for t, x in sorted(iso.items()):
        if t[2] == "full":
            continue

        def value(z, r, mu):
            if t[2] == "none":
                return 0.0, 0.0
            if t[2] == "plane":
                return T.plane_pair(t[0], t[1], m.cosmo, m.K, b1, b2, z, r, mu)
            return T.limber(t[0], t[1], m.cosmo, J, b1, b2, z, r, mu)
        for kind, pts in (("corrfunc", bench.pts), ("multipole", bench.mps)):
            if x[kind] is None:
                continue
            n += 1
            for i, (z, r, a) in enumerate(pts):
                if kind == "corrfunc":
                    v, s = value(z, r, a)
                else:
                    vs = [value(z, r, mu) for mu in nodes]
                    v = sum(w * q[0] * leg[a](mu) for w, q, mu in zip(weights, vs, nodes)) * (2 * a + 1) / 2
                    s = max(q[1] for q in vs)
                g = x[kind][i]
                asks += 1
                err = abs(g - v) if number(g) else math.inf
                lim = 1e-3 * abs(v) + 2e-4 * s
                worst((t[2], kind, *t[:2]), err, lim, (z, r, a), g, v, s)
                if not err <= lim:
                    if t[:2] == ("d1", "d1") and number(g) and known_plane_d1(T, bench, kind, z, r, a, g, s) and ctx.finding("d1-d1"):
                        continue
                    ctx.violation(f"{t[0]}-{t[1]} in its plane-parallel form: {kind} at {(round(z, 4), round(r, 3), round(a, 4))} is {g!r}, the specification says {v:.8g}")
                    break
    # the forms are the ones the cases and histories use
    for i, c in enumerate(cs):
        for k in ("corrfunc", "multipole"):
            n += 1
            asks += judge_value(ctx, bench, iso, c["terms"], k, vals[i][k], f"{c['on']}{' cross' if c['cross'] else ''} {c['flat']}", worst, tols=TOL18)
    # and tend to the full-sky ones nearby: at separations that are small compared to the distance
    asks += nearby(ctx, bench, worst)
    hs = histories(ctx.q(40, 200), ctx.seed, sorted(FLATTERMS), flat=True)
    asks += replay(ctx, bench, hs, iso, "history", worst, TOL18)
    ctx.sample(str([{k: v for k, v in e.items() if k in ("e", "s", "v", "k")} for e in hs[0]]))
    report(ctx, mc, n + len(hs), asks, worst)


def known_plane_d1(T, bench, kind, z, r, a, g, s):
    """The listed wrong formula: the part with j_2 has the opposite sign."""
    m = bench.m
    x = float(m.cosmo.chi(z))
    amp = T.amp("d1", m.cosmo, z, x, m.bias[0]) * T.amp("d1", m.cosmo, z, x, m.bias[1])
    i22 = float(m.K(4, 2, r))
    k41 = float(m.K(4, 1, r))
    i00 = 3 * k41 - r * r * i22
    p2 = (3 * a * a - 1) / 2 if kind == "corrfunc" else {2: 1.0}.get(a, 0.0)
    p0 = 1.0 if kind == "corrfunc" or a == 0 else 0.0
    wrong = amp / 3 * (p0 * i00 + 2 * p2 * r * r * i22)
    return abs(g - wrong) <= 1e-3 * abs(wrong) + 5e-4 * s


def nearby(ctx, bench, worst):
    """Plane-parallel and full-sky values of local pairs approach each other as r/x falls."""
    pairs = [("density", "density"), ("density", "rsd"), ("rsd", "rsd"), ("density", "d1"), ("rsd", "d1")]
    rs = [4.0, 8.0, 16.0]
    jobs = []
    for a, b in pairs:
        ops = []
        for o, f in ((1, False), (2, True)):
            op = bench.new({a, b}, has_only_cross_correlations=a != b, has_flatsky_local=f, same=True)
            op["o"] = o
            ops += [op, {"e": "calls", "o": o, "m": "compute_corrfunc", "args": [{"z": 4.0, "r": r, "mu": mu} for r in rs for mu in (0.9, 0.4)]}]
        jobs.append({"id": f"{a}-{b}", "ops": ops})
    rep = pool.run_jobs(ctx.build, jobs)
    n = 0
    for j in jobs:
        r = rep[j["id"]]
        if "dead" in r or any("err" in x for x in r["out"]):
            ctx.violation(f"{j['id']}: {str(r)[:300]}")
            continue
        full, flat = r["out"][1]["ok"], r["out"][3]["ok"]
        for i, (x, y) in enumerate(zip(full, flat)):
            n += 1
            odd = "d1" in j["id"]      # for one population these are differences between the two points: of the order of r/x themselves
            if odd:
                continue
            lim = 0.02 * rs[i // 2] / 4.0 * max(abs(x), abs(y)) + 1e-3 * max(map(abs, full))
            worst(("nearby", j["id"]), abs(x - y), lim, i, x, y)
            if not abs(x - y) <= lim:
                ctx.violation(f"{j['id']} at z=4 r={rs[i // 2]}: plane-parallel {y!r}, full sky {x!r}")
    return n
