"""P17: the Fourier-Bessel integrals against their definition, their relations, and on histories of CoffeIntegrals."""
import math
import multiprocessing as mp
import random

import numpy as np
from scipy.interpolate import Akima1DInterpolator, CubicSpline

import pool
import sums
import theory
import tlc

NK = 60001
NODES = (0.0, 1e-3, 0.02, 0.35, 0.9)
_G = {}


class Spectrum:
    """A table, and the spectrum it stands for."""

    def __init__(self, rnd, kind):
        u = rnd.uniform
        lo, hi, n = {"wide": (u(-5.2, -4.9), u(2.2, 2.6), rnd.randint(1500, 2500)), "plain": (u(-4.6, -3.6), u(0.7, 1.5), rnd.randint(700, 1500)),
                     "coarse": (u(-5, -4), u(0.5, 1.2), rnd.randint(90, 200)), "few": (u(-4.5, -4), u(0.3, 0.8), rnd.randint(40, 60)),
                     "units": (u(-4.6, -4), u(0.7, 1.2), rnd.randint(900, 1500))}[kind]
        self.kind = kind
        self.kmin, self.kmax = 10 ** lo, 10 ** hi
        kp, damp, slope, tilt, amp = 10 ** u(-2, -1.4), u(0.5, 3), u(1.0, 1.3), u(0.9, 1.4), 10 ** u(3, 5)
        bao = u(0, 0.1)
        self.units = rnd.choice([0.3, 1.7]) if kind == "units" else 1.0
        self.base = lambda k: amp * (k / kp) ** tilt / (1 + (k / kp) ** 2) ** slope * np.exp(-(k * damp) ** 2 / 2) * (1 + bao * np.sin(105 * k) * np.exp(-(8 * k) ** 2))
        k = np.geomspace(self.kmin, self.kmax, n)
        if kind == "coarse":        # an uneven one
            k = np.exp(np.sort(np.log(k) + np.array([0] + [u(-0.3, 0.3) for _ in range(n - 2)] + [0]) * math.log(k[1] / k[0])))
        s = self.units
        self.k, self.p = [float(x) for x in k / s], [float(x) for x in self.base(k) * s ** 3]
        self.kmin, self.kmax = self.k[0], self.k[-1]
        self.inner, self.outer = Akima1DInterpolator(self.k, self.p), CubicSpline(self.k, self.p, bc_type="natural")
        self.sampling = rnd.choice([10000, 10000, rnd.randint(2000, 6000) * 2, rnd.randint(3000, 9000) * 2 + 1])
        self.rmax = (self.kmax / self.kmin) ** (1 - 1 / self.sampling)


def quadrature(s, r, of):
    """k, weights of Int dk/(2 pi^2) with the spectrum; as fine as the oscillations need."""
    top = min(s.kmax, s.kmax if s.kind in ("few", "coarse") else 6.0 * (1 + 1 / s.units))
    n = NK
    while n < 2_000_000 and math.log(s.kmax / s.kmin) / n * top * r > 0.25:
        n = n * 2 - 1
    u = np.linspace(math.log(s.kmin), math.log(s.kmax), n)
    k = np.exp(u)
    k[0], k[-1] = s.kmin, s.kmax
    w = np.full(n, (u[1] - u[0]) / 3)
    w[1:-1:2] *= 4
    w[2:-1:2] *= 2
    return k, w * k * of(k) / (2 * np.pi ** 2)


def _values(a):
    """For all integrals at one separation: value, size, part from the ends of the spectrum, difference of interpolations."""
    i, r = a
    s, spec = _G["spectra"][i], _G["spec"]
    k, w = quadrature(s, r, s.inner if r < 1 else s.outer)
    _, w2 = quadrature(s, r, s.outer if r < 1 else s.inner)
    ends = (k < 1.6 * s.kmin) | (k > s.kmax / 1.6)
    out, bessel = {}, {}
    for t in spec["integrals"]:
        n, l = t["n"], t["l"]
        if l not in bessel:
            bessel[l] = theory.bessel_over(l, k * r)
        f = k ** float(t["k"]) * bessel[l] * (r ** t["r"] if t["r"] else 1.0)
        g = w * f
        out[n, l] = (float(np.sum(g)), float(np.sum(abs(g))), float(np.sum(abs(g)[ends])), abs(float(np.sum(w2 * f - g))))
    return out


def separations(rnd, s):
    u = rnd.uniform
    top = min(s.rmax, 25000)
    out = [0.0, 10 ** u(-5, -3), rnd.choice(NODES[1:]), u(0.01, 0.9), u(0.9, 1.1), u(1, 5), u(5, 12), u(12, 60), u(60, 140), u(140, 400),
           min(u(400, 1500), top)]
    out.append(10 ** u(1, math.log10(min(top, 20000))))
    return [r for r in out if r <= top]


def tolerance(s, n, l, r):
    """Relative to the size, and to that of [n,n]; more where the transform is known to be less accurate, near the ends of its range."""
    if n == 4:
        return (3e-4 if r < 1000 else 1e-2), 0.0
    near = (n, l) in ((2, 0), (3, 1))
    if r < 0.9:
        return (8e-4 if r in NODES else 2e-3), (5e-4 if l > n else 0.0)
    if r < 5:
        return (1e-2 if s.kind == "wide" else 1.5, 0.0) if near else (2e-3, (2e-3 if r < 1.3 else 1e-4) if l > n else 0.0)
    if r > 0.003 * s.rmax:
        return (2e-2, 0.0) if r < 0.02 * s.rmax and not (near or n == 2) else (3.0, 1.0 if l > n else 0.0)
    if n >= 2 and r > 0.0005 * s.rmax:
        return 2e-2, 0.0
    return 1e-2 if near and r < 12 else 5e-4, 0.0


def limit(s, n, l, r, values):
    """How far off a value may be."""
    v, size, ends, other = values[n, l]
    a, b = tolerance(s, n, l, r)
    lim = a * size + (b * values[n, n][1] if b else 0.0) + 1e-30
    if n < 4:
        lim += ends + other if r >= 0.9 else 0.2 * other
    return lim


def p17(ctx):
    mc = tlc.model_check("CoffeIntegrals")
    spec = tlc.export("CoffeIntegralsExport")
    by = {(t["n"], t["l"]): t for t in spec["integrals"]}
    rnd = random.Random(ctx.seed * 131 + 17)
    kinds = ["wide", "plain", "coarse", "few", "units"] * ctx.q(4, 24)
    spectra = [Spectrum(rnd, k) for k in kinds]
    rs = [separations(rnd, s) for s in spectra]
    divergent = [rnd.random() < 0.4 for _ in spectra]
    _G.update(spectra=spectra, spec=spec)
    plan = [(i, r) for i in range(len(spectra)) for r in rs[i]]
    jobs = []
    for i, s in enumerate(spectra):
        extra = {f"has_{rnd.choice(spec['divergents'])}": True} if divergent[i] else {}
        ops = [{"e": "new", "o": 1, "kw": {"integrals_fftlog_sampling": s.sampling, **extra}, "set": [["pk", [s.k, s.p]]]}]
        for (n, l) in sorted(by):
            ops.append({"e": "calls", "o": 1, "m": "integral", "args": [{"r": r, "n": n, "l": l} for r in rs[i]]})
        # slopes, integrated between two separations
        x, w = np.polynomial.legendre.leggauss(16)
        a, b = rnd.uniform(15, 60), rnd.uniform(70, 200)
        mid = (b - a) / 2 * x + (a + b) / 2
        ops.append({"e": "calls", "o": 1, "m": "integral", "args": [{"r": float(r), "n": q[0], "l": q[1]} for t in spec["slopes"] for q, pts in ((t["of"], (a, b)), (t["is"], mid)) for r in pts]})
        # beyond what is known
        ops.append({"e": "calls", "o": 1, "m": "integral", "args": [{"r": min(s.rmax * 1.001, 24999.0) if s.rmax < 24900 else 25001.0, "n": 0, "l": 0}, {"r": -1e-9, "n": 1, "l": 1}, {"r": 0.0, "n": 4, "l": 0}, {"r": 20001.0, "n": 4, "l": 0}]})
        jobs.append({"id": f"v{i}", "ops": ops, "a": a, "b": b, "w": list((b - a) / 2 * w), "mid": list(mid)})
    histories = []
    cfg = (tlc.SPEC / "CoffeIntegralsHistory.cfg").read_text().replace("Costly = 2", f"Costly = {ctx.q(1, 2)}").replace("Depth = 24", f"Depth = {ctx.q(24, 36)}")
    out = tlc.tlc("CoffeIntegralsHistory", ("-simulate", f"num={ctx.q(20, 120)}", "-depth", "40", "-seed", str(ctx.seed * 7 + 1), "-workers", "1"), cfgtext=cfg)
    for j, h in enumerate(tlc.printed(out, "HISTORY")):
        two = rnd.sample(range(len(spectra)), 2)
        ops = [{"e": "new", "o": 1, "kw": {}, "set": [["pk", [spectra[two[0]].k, spectra[two[0]].p]]]}]
        want = []
        for e in h:
            if e["e"] == "set":
                ops.append({"e": "set", "o": 1, "s": "has_" + e["s"], "v": e["v"]})
                want.append(None)
            elif e["e"] == "spectrum":
                s = spectra[two[e["of"] - 1]]
                ops.append({"e": "set", "o": 1, "s": "pk", "v": [s.k, s.p]})
                want.append(None)
            elif e["e"] == "ask":
                i = two[e["spectrum"] - 1]
                r = round(rnd.uniform(20, 120), 3)
                if e["ok"]:
                    plan.append((i, r))
                ops.append({"e": "call", "o": 1, "m": "integral", "kw": {"r": r, "n": e["n"], "l": e["l"]}})
                want.append((i, r, e["n"], e["l"], e["ok"]))
        histories.append((ops, want))
        jobs.append({"id": f"h{j}", "ops": ops})
    plan = sorted(set(plan))
    with mp.get_context("fork").Pool(8) as p:
        values = dict(zip(plan, p.map(_values, plan, chunksize=4)))
    ctx.log(f"{len(plan)} points integrated")
    rep = pool.run_jobs(ctx.build, jobs, timeout=300)
    ctx.log("package asked")
    worst = ctx.worst = {}
    compared = related = 0

    def compare(i, r, n, l, got, label):
        nonlocal compared
        s = spectra[i]
        v, size, ends, other = values[i, r][n, l]
        if n == 4 and not 1e-6 <= r <= 20000:
            return
        if not sums.number(got):
            ctx.violation(f"{label}: {got!r}, should be {v:.9g}")
            return
        compared += 1
        lim = limit(s, n, l, r, values[i, r])
        k = f"{s.kind} {n},{l} r{'<.9' if r < .9 else '<5' if r < 5 else '<12' if r < 12 else '<.003R' if r < .003 * s.rmax else '<.02R' if r < .02 * s.rmax else '>'}"
        if abs(got - v) / lim > worst.get(k, (0,))[0]:
            worst[k] = (abs(got - v) / lim, label, v, size, ends, other)
        if not abs(got - v) <= lim:
            ctx.violation(f"{label} is {got!r}, should be {v:.9g}")

    for job in jobs:
        k, r = job["id"], rep[job["id"]]
        i = int(k[1:])
        if "dead" in r:
            ctx.violation(f"{r['dead']} in {k}", replay=r)
            continue
        if k[0] == "h":
            ops, want = histories[i]
            steps = []
            for op, w, o in zip(ops[1:], want, r["out"][1:]):
                if w is None:
                    steps.append("spectrum" if op["s"] == "pk" else f"{op['s']}={op['v']}")
                    if "ok" not in o:
                        ctx.violation(f"refused: {o} after {steps}")
                    continue
                at, sep, n, l, there = w
                if not there:
                    if o.get("err") != "ValueError":
                        ctx.violation(f"integral(r={sep}, n={n}, l={l}) with {steps} gives {o}, should be refused")
                elif "ok" not in o:
                    ctx.violation(f"integral(r={sep}, n={n}, l={l}) with {steps} is refused: {o}")
                else:
                    compare(at, sep, n, l, o["ok"], f"integral(r={sep}, n={n}, l={l}) of a {spectra[at].kind} spectrum after {steps}")
            ctx.sample("; ".join(steps[:8]))
            continue
        s = spectra[i]
        got = {}
        what = f"of a {s.kind} spectrum ({len(s.k)} nodes, k = {s.kmin:.4g} to {s.kmax:.4g}, integrals_fftlog_sampling={s.sampling})"
        for (n, l), o in zip(sorted(by), r["out"][1:]):
            for sep, g in zip(rs[i], o["ok"]):
                if by[n, l]["divergent"] and not divergent[i]:
                    if g != "error ValueError":
                        ctx.violation(f"integral(r={sep}, n={n}, l={l}) without the contributions that need it gives {g!r}")
                    continue
                got[n, l, sep] = g
                if n == 4 and sep < 1e-6:
                    continue
                compare(i, sep, n, l, g, f"integral(r={sep:.9g}, n={n}, l={l}) {what}")
        # the package's answers among themselves
        for parts in spec["relations"]:
            for sep in rs[i]:
                vs = [p[0] * got[p[1], p[2], sep] * sep ** p[3] for p in parts if sums.number(got.get((p[1], p[2], sep)))]
                if len(vs) < 3:
                    continue
                related += 1
                lim = sum(abs(p[0]) * sep ** p[3] * limit(s, p[1], p[2], sep, values[i, sep]) for p in parts)
                if not abs(sum(vs)) <= lim:
                    ctx.violation(f"integrals at r={sep:.9g} {what}: " + " + ".join(f"{p[0]}*r^{p[3]}*[{p[1]},{p[2]}]" for p in parts) + f" = {sum(vs):.6g}, of parts {vs}")
        sl = r["out"][1 + len(by)]["ok"]
        for t in spec["slopes"]:
            (va, vb), inner, sl = sl[:2], sl[2:18], sl[18:]
            if t["of"] == [4, 0] and not divergent[i]:
                continue
            if not all(sums.number(x) for x in (va, vb, *inner)):
                ctx.violation(f"slopes of {t['of']} {what}: {va!r} {vb!r} {inner!r}")
                continue
            parts = [w * m ** t["r"] * x for w, m, x in zip(job["w"], job["mid"], inner)]
            related += 1
            err = abs(vb - va + sum(parts))
            size = max(abs(va), abs(vb), sum(map(abs, parts)))
            lim = {"wide": 2e-4, "plain": 2e-3}.get(s.kind)
            if lim and not any(x > 0.003 * s.rmax for x in (job["b"],)):
                worst["slope " + s.kind] = max(worst.get("slope " + s.kind, (0, 0)), (err / size, f"{t} {what}"))
                if not err <= lim * size:
                    ctx.violation(f"slope of {t['of']} between {job['a']:.6g} and {job['b']:.6g} {what}: {vb - va:.9g}, but {t['is']} gives {-sum(parts):.9g}")
        last = r["out"][2 + len(by)]["ok"]
        for g, lab in zip(last, ("beyond the range", "at a negative separation", "of [4,0] at 0", "of [4,0] beyond its table")):
            if g != "error ValueError":
                ctx.violation(f"integral {lab} {what}: {g!r} instead of a refusal")
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=len(jobs), values_compared=compared, relations_checked=related, spectra=len(spectra))
