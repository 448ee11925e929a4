"""P16: spectra and biases the user supplies, on histories of CoffeInput."""
import bisect
import math
import random

import numpy as np

import pool
import sums
import tlc

UNIVERSES = {1: {"omega_m": 0.31, "h": 0.68, "w0": -1.0}, 2: {"omega_m": 0.24, "h": 0.74, "w0": -0.9}, 3: {"omega_m": 0.4, "h": 0.6, "w0": -1.1}}


class Table:
    def __init__(self, rnd, lo, hi, log, positive):
        u = rnd.uniform
        self.shape = rnd.choice(["linear", "smooth", "rough", "rough", "constant", "scales"])
        n = {"smooth": rnd.randint(150, 400), "scales": rnd.randint(60, 120)}.get(self.shape, rnd.choice([5, 5, 6, 7, 9, 17, 60, 333]))
        spacing = rnd.choice(["even", "log", "random", "clustered"]) if self.shape != "smooth" else ("log" if log else "even")
        t = [i / (n - 1) for i in range(n)]
        if spacing == "random" or (spacing == "even" and log):
            t = [0.0] + sorted(u(0.001, 0.999) for _ in range(n - 2)) + [1.0]
        if spacing == "clustered":
            t = [x ** 3 for x in t]
        if spacing == "log" and not log:
            t = [(math.exp(3 * x) - 1) / (math.exp(3) - 1) for x in t]
        self.x = [math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * s) for s in t] if log else [lo + (hi - lo) * s for s in t]
        self.x = [a for i, a in enumerate(self.x) if i == 0 or a - self.x[i - 1] > 1e-9 * hi / (1e6 if log else 1)]
        while len(self.x) < 5:
            self.x.append(self.x[-1] * 1.01)
        n = len(self.x)
        a, b = u(0.5, 3), u(-0.3, 0.5) if not positive else u(0, 0.4)
        scale = 10 ** u(2, 5) if positive else 1.0
        k = 2 * math.pi * u(0.4, 1.1)
        self.f = {"linear": lambda x, t: scale * (a + b * x), "constant": lambda x, t: scale * a,
                  "smooth": lambda x, t: scale * (a + 0.4 * math.sin(k * t + 1))}.get(self.shape)
        pos = lambda x: (math.log(x / lo) / math.log(hi / lo)) if log else (x - lo) / (hi - lo)
        self.pos = pos
        if self.f:
            self.y = [self.f(x, pos(x)) for x in self.x]
        elif self.shape == "rough":
            self.y = [scale * (u(0.1, 3) if positive else u(-2, 3)) for _ in self.x]
        else:
            self.y = [10 ** (-6 + 12 * (i / n)) for i in range(n)]
        self.form = rnd.choice(["list", "list", "array", "tuple"])

    def args(self):
        w = (lambda v: v) if self.form == "list" else (lambda v: {"$": self.form, "v": v})
        return [w(self.x), w(self.y)]

    def describe(self):
        return f"{self.shape} table of {len(self.x)} nodes from {self.x[0]:.6g} to {self.x[-1]:.6g}"

    def slope(self, i):
        n = len(self.x)
        return max(abs((self.y[m + 1] - self.y[m]) / (self.x[m + 1] - self.x[m])) for m in range(max(0, i - 3), min(n - 1, i + 4)))

    def places(self, rnd, many):
        """(argument, kind of place, what may come out)"""
        n = len(self.x)
        out = []
        for i in sorted({0, n - 1, *rnd.sample(range(n), min(n, many))}):
            gap = max(self.x[m + 1] - self.x[m] for m in (i - 1, i) if 0 <= m < n - 1)
            out.append((self.x[i], "node", (self.y[i], 1e-12 * abs(self.y[i]) + 1e-14 * self.slope(min(i, n - 2)) * gap)))
        size = max(map(abs, self.y))
        for _ in range(many):
            i = rnd.randrange(n - 1)
            x = self.x[i] + (self.x[i + 1] - self.x[i]) * rnd.uniform(0.05, 0.95)
            if self.f:
                v = self.f(x, self.pos(x))
                out.append((x, "between", (v, (1e-11 if self.shape != "smooth" else 2e-5) * size)))
            else:
                # slopes at the nodes are between those nearby, continued beyond the edges
                gap, slope = self.x[i + 1] - self.x[i], self.slope(i)
                s = (x - self.x[i]) / gap
                out.append((x, "between", (self.y[i] * (1 - s) + self.y[i + 1] * s, 10 * slope * gap * s * (1 - s) + 1e-11 * size)))
            # next to a node
            j = i + rnd.randint(0, 1)
            x = self.x[j] + (self.x[i + 1 - (j - i)] - self.x[j]) * 1e-7
            out.append((x, "next to node", (self.y[j], 10 * self.slope(i) * abs(x - self.x[j]) + 1e-11 * size)))
        return out


def spoiled(rnd, t, why):
    """Arguments that must be refused."""
    x, y = list(t.x), list(t.y)
    i = rnd.randrange(1, len(x) - 1)
    if why == "few":
        m = rnd.randint(0, 4)
        return [x[:m], y[:m]]
    if why == "unequal":
        return [x, y[:-1]] if rnd.random() < 0.5 else [x[:-1] if len(x) > 5 else x + [x[-1] * 1.1], y]
    if why in ("nan", "infinite"):
        bad = {"$": "nan" if why == "nan" else rnd.choice(["inf", "-inf"])}
        (x if rnd.random() < 0.4 else y)[rnd.choice([0, i, len(x) - 1])] = bad
    if why == "repeated":
        x[i] = x[i - 1]
    if why == "unsorted":
        x[i], x[i - 1] = x[i - 1], x[i]
    if why == "zero":
        x[0] = 0.0
    if why == "negative":
        x[0] = -abs(x[0])
    if why == "future":
        x[0] = -rnd.choice([1e-6, 0.5])
    if why == "far":
        x[-1] = 15 + rnd.choice([1e-6, 3.0])
    return [x, y]


LIN = ["integral", "corrfunc", "multipole", "average", "cosmic", "mixed", "poisson"]


def linear_jobs(ctx, rnd, spec):
    """The same requests for several combinations of two spectra."""
    jobs, info = [], {}
    sets = [["density", "rsd"], ["d1", "d2"], ["rsd", "g3"], ["density", "d1"], ["g1", "g2"], ["density", "rsd", "d1", "d2", "g1", "g2", "g3"]]
    for g in range(ctx.q(6, 36)):
        u = rnd.uniform
        k = np.geomspace(10 ** u(-5, -4.4), 10 ** u(0.7, 1.2), 600)
        ab = []
        for _ in range(2):
            kp, sl, tilt, amp = 10 ** u(-2, -1.4), u(1, 1.3), u(0.9, 1.3), 10 ** u(3, 4.5)
            ab.append(amp * (k / kp) ** tilt / (1 + (k / kp) ** 2) ** sl * np.exp(-(k * u(0.5, 1.5)) ** 2))
        zin = u(0.3, 4)
        effects = sets[g % len(sets)]
        grid = {"z_mean": [round(u(0.5, 1.5), 3)], "deltaz": [0.1], "sep": [round(u(20, 60), 2), round(u(80, 160), 2)], "l": [0, 2], "z_min": [0.7], "z_max": [0.8],
                "number_density1": [1e-3], "number_density2": [2e-3], "fsky": [0.4], "pixelsize": [u(5, 15)], "covariance_integration_sampling": 4000}
        flags = {"has_density": "density" in effects, **{f"has_{e}": True for e in effects}}
        asks = [{"e": "calls", "o": 1, "m": "integral", "args": [{"r": r, "n": n, "l": l} for n, l in ((0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)) for r in (0.0, 0.5, 14.0, 88.0)]},
                {"e": "calls", "o": 1, "m": "compute_corrfunc", "args": [{"z": 0.8, "r": r, "mu": m} for r, m in ((30.0, 0.2), (90.0, -0.7), (140.0, 0.95))]},
                {"e": "calls", "o": 1, "m": "compute_multipole", "args": [{"z": 1.1, "r": r, "l": l} for r, l in ((30.0, 0), (70.0, 2), (120.0, 1), (100.0, 4))]}]
        settings = {**grid, **flags, "integration_sampling": 2000}
        for c, combo in enumerate(list(spec["combos"]) + ["at z"]):
            at_z = combo == "at z"
            a, b = (1, 1) if at_z else combo
            p = a * ab[0] + b * ab[1]
            ops = [{"e": "new", "o": 1, "kw": settings},
                   {"e": "call", "o": 1, "m": "growth_factor", "a": [zin]},
                   {"e": "call", "o": 1, "m": "set_power_spectrum_linear", "a": [[float(x) for x in k], [float(x) for x in p]], "kw": {"z": zin} if at_z else {}}]
            ops += asks + [{"e": "call", "o": 1, "m": "compute_average_multipoles_bulk", "a": []}]
            for part in ("cosmic", "mixed", "poisson"):
                ops += [{"e": "setall", "o": 1, "kw": {f"covariance_{x}": x == part for x in ("cosmic", "mixed", "poisson")}},
                        {"e": "call", "o": 1, "m": "compute_covariance_bulk", "a": []}]
            jid = f"lin{g}-{c}"
            jobs.append({"id": jid, "ops": ops})
            info[jid] = (g, c, effects, zin)
    return jobs, info


def linear_results(o):
    """Lists of numbers by kind."""
    rows = lambda x: [r["value"] for r in x]
    out = [x.get("ok") for x in o]
    return {"growth": out[1], "integral": out[3], "corrfunc": out[4], "multipole": out[5], "average": rows(out[6]),
            "cosmic": rows(out[8]), "mixed": rows(out[10]), "poisson": rows(out[12])}


def p16(ctx):
    mc = tlc.model_check("CoffeInput")
    spec = tlc.export("CoffeInputExport")
    rnd = random.Random(ctx.seed * 151 + 16)
    out = tlc.tlc("CoffeInputHistory", ("-simulate", f"num={ctx.q(60, 500)}", "-depth", "17", "-seed", str(ctx.seed * 11 + 3), "-workers", "1"))
    jobs, plan = [], {}
    for j, h in enumerate(tlc.printed(out, "HISTORY")):
        spectra = {t: Table(rnd, 10 ** rnd.uniform(-5.3, -3), 10 ** rnd.uniform(-0.5, 2.5), True, True) for t in range(1, 7)}
        biases = {t: Table(rnd, rnd.choice([0.0, 0.0, rnd.uniform(0, 0.5)]), rnd.choice([15.0, rnd.uniform(1, 14.9)]), False, False) for t in range(1, 7)}
        zs = {0: 0.0, 1: rnd.uniform(0.01, 1), 2: rnd.uniform(1, 6), 3: rnd.choice([15.0, rnd.uniform(6, 15)])}
        first = h[0]["did"]["u"] if h[0]["did"]["e"] == "universe" else h[0]["state"]["universe"]
        ops = [{"e": "new", "o": 1, "kw": UNIVERSES[first]}]
        want = [("done", True)]
        steps = [f"new {first}"]
        span = (1e-4, 1.0)
        for e in h:
            d, st = e["did"], e["state"]
            if d["e"] == "universe":
                ops.append({"e": "setall", "o": 1, "kw": UNIVERSES[d["u"]]})
                want.append(("done", True))
                steps.append(f"universe {d['u']}")
            elif "spectrum" in d["e"]:
                bad = d["e"] != "spectrum"
                a = spoiled(rnd, spectra[d["t"]], d["why"]) if bad else spectra[d["t"]].args()
                ops.append({"e": "call", "o": 1, "m": "set_power_spectrum_linear", "a": a, "kw": {"z": zs[d["z"]]} if d["z"] or rnd.random() < 0.3 else {}})
                want.append(("done", not bad))
                if not bad:     # kept when the spectrum goes
                    span = spectra[d["t"]].x[0] * 1.001, spectra[d["t"]].x[-1] * 0.999
                steps.append(f"{d['e']} {d['t']} {d.get('why', '')} at z={zs[d['z']]:.4g}")
            else:
                bad = d["e"] != "bias"
                a = spoiled(rnd, biases[d["t"]], d["why"]) if bad else biases[d["t"]].args()
                ops.append({"e": "call", "o": 1, "m": "set_" + d["s"], "a": a})
                want.append(("done", not bad))
                steps.append(f"{d['s']} {d['t']} {d.get('why', '')}")
            # look
            label = list(steps)
            grown = [(zs[x[1]], x[2]) for x in st["spectrum"]["growth"]]
            z1, z2 = (rnd.choice([0.0, rnd.uniform(0, 15), *[zs[i] for i in zs]]) for _ in range(2))
            many = 3
            t = spectra.get(st["spectrum"]["table"])
            need = [z1, z2] + [z for z, _ in grown]
            ops.append({"e": "calls", "o": 1, "m": "growth_factor", "args": [[z] for z in need]})
            want.append(("growth", grown))
            if t:
                ps = t.places(rnd, many)
                ops.append({"e": "calls", "o": 1, "m": "power_spectrum", "args": [[x, z1] for x, _, _ in ps]})
                want.append(("values", f"power_spectrum(k, {z1:.6g})", ps, (2, 0), label, t))
                ops.append({"e": "calls", "o": 1, "m": "cross_spectrum", "args": [[x, z1, z2] for x, _, _ in ps]})
                want.append(("values", f"cross_spectrum(k, {z1:.6g}, {z2:.6g})", ps, (1, 1), label, t))
                ops.append({"e": "getall", "o": 1, "names": ["k_min", "k_max"]})
                want.append(("ends", t, label))
                ops.append({"e": "calls", "o": 1, "m": "power_spectrum", "args": [[t.x[0] * (1 - 1e-9), z1], [t.x[-1] * (1 + 1e-9), z1], [t.x[2], -1e-9], [t.x[2], 15.000001]]})
                want.append(("refused", "power_spectrum outside", label))
                ops.append({"e": "calls", "o": 1, "m": "cross_spectrum", "args": [[t.x[0] * (1 - 1e-9), z1, z2], [t.x[-1] * (1 + 1e-9), z1, z2], [t.x[2], -1e-9, z2], [t.x[2], z1, 15.000001]]})
                want.append(("refused", "cross_spectrum outside", label))
            else:
                ks = [math.exp(rnd.uniform(math.log(span[0]), math.log(span[1]))) for _ in range(2)]
                ops.append({"e": "calls", "o": 1, "m": "power_spectrum", "args": [[k, z] for k in ks for z in (0.0, z1)]})
                want.append(("default", label))
            for s in rnd.sample(sorted(st["bias"]), 3) + ([d["s"]] if "s" in d else []):
                b = biases.get(st["bias"][s])
                if b:
                    ps = b.places(rnd, many)
                    lo, hi = b.x[0], b.x[-1]
                else:
                    v = 1.0 if s.startswith("galaxy") else 0.0
                    ps = [(x, "initial", (v, 1e-12)) for x in (0.0, rnd.uniform(0, 10), 10.0)]
                    lo, hi = 0.0, 10.0
                ops.append({"e": "calls", "o": 1, "m": s, "args": [[x] for x, _, _ in ps]})
                want.append(("values", s, ps, (0, 0), label, b))
                ops.append({"e": "calls", "o": 1, "m": s, "args": [[lo - 1e-9], [hi + 1e-9]]})
                want.append(("refused", f"{s} outside", label))
                if b:
                    ops += [{"e": "call", "o": 1, "m": s + "_redshifts", "a": []}, {"e": "call", "o": 1, "m": s + "_values", "a": []}]
                    want += [("nodes", s + "_redshifts", b.x, label), ("nodes", s + "_values", b.y, label)]
        jobs.append({"id": f"h{j}", "ops": ops})
        plan[f"h{j}"] = want
        ctx.sample("; ".join(steps[:8]))
    lin, info = linear_jobs(ctx, rnd, spec)
    rep = pool.run_jobs(ctx.build, jobs + lin, timeout=300)
    ctx.log(f"{len(jobs)} histories, {len(lin)} combinations")
    compared = related = 0
    worst = ctx.worst = {}
    for k, want in plan.items():
        r = rep[k]
        if "dead" in r:
            ctx.violation(f"{r['dead']} in {k}", replay=r)
            continue
        growth, kept = None, 1.0
        steps = None
        for w, o in zip(want, r["out"]):
            bad = None
            if w[0] == "done":
                if w[1] != ("ok" in o):
                    bad = f"refused: {o}" if w[1] else "an unusable table was accepted"
                elif not w[1] and o["err"] not in ("ValueError", "TypeError"):
                    bad = f"refused with {o}"
                label = plan_label(want, w)
            elif "ok" not in o:
                bad, label = f"{w[:2]}: {o}", plan_label(want, w)
            elif w[0] == "growth":
                if not all(sums.number(x) and 0 < x <= 1 + 1e-9 for x in o["ok"]):
                    bad, label = f"growth factors {o['ok']}", plan_label(want, w)
                else:
                    growth = o["ok"][:2]
                    kept = math.prod(d ** p for d, (_, p) in zip(o["ok"][2:], w[1]))
            elif w[0] == "values":
                label = w[4]
                f = growth[0] ** w[3][0] * growth[1] ** w[3][1] * kept if w[3] != (0, 0) else 1.0
                for (x, where, (v, tol)), g in zip(w[2], o["ok"]):
                    compared += 1
                    if w[5] and w[5].shape == "smooth" and where == "between" and sums.number(g):
                        e = abs(g / f - v) / max(map(abs, w[5].y))
                        if e > worst.get("smooth", (0,))[0]:
                            worst["smooth"] = (e, w[5].describe(), x)
                    if not (sums.number(g) and abs(g - v * f) <= (tol + 1e-13 * abs(v)) * f * 2):
                        bad = f"{w[1]} at {x!r} ({where} of a {w[5].describe() if w[5] else 'constant'}) is {g!r}, should be {v * f!r} within {tol * f:.3g}"
                        break
            elif w[0] == "ends":
                label = w[2]
                if [o["ok"]["k_min"], o["ok"]["k_max"]] != [w[1].x[0], w[1].x[-1]]:
                    bad = f"range of the spectrum is {o['ok']}, the table's {w[1].x[0]!r} to {w[1].x[-1]!r}"
            elif w[0] == "refused":
                label = w[2]
                if any(x != "error ValueError" for x in o["ok"]):
                    bad = f"{w[1]} its table gives {o['ok']} instead of a refusal"
            elif w[0] == "default":
                label = w[1]
                a, b, c, d = o["ok"]
                if not all(map(sums.number, o["ok"])) or not (abs(b / a / growth[0] ** 2 - 1) < 1e-9 and abs(d / c / growth[0] ** 2 - 1) < 1e-9):
                    bad = f"power spectrum without a table: {o['ok']} is not growth {growth[0]} squared"
            elif w[0] == "nodes":
                label = w[3]
                compared += 1
                if len(o["ok"]) != len(w[2]) or not all(abs(a - b) <= 1e-12 * abs(b) for a, b in zip(o["ok"], w[2])):
                    bad = f"{w[1]}() is not the supplied table ({len(w[2])} nodes): {o['ok'][:6]}"
            if bad:
                ctx.violation(f"{bad}; after {'; '.join(label)}")
                break
    groups = {}
    for jid, (g, c, effects, zin) in info.items():
        r = rep[jid]
        if "dead" in r or any("err" in o for o in r["out"]):
            ctx.violation(f"{jid}, {effects}: {r.get('dead') or [o for o in r['out'] if 'err' in o][:2]}", replay=r)
            continue
        groups.setdefault(g, {})[c] = linear_results(r["out"])
    n = len(spec["combos"])
    for g, by in groups.items():
        if len(by) <= n:
            continue
        effects, zin = next((e, z) for gg, _, e, z in info.values() if gg == g)
        degree = {"integral": 1, "corrfunc": 1, "multipole": 1, "average": 1, **{x: spec["degrees"][x] for x in ("cosmic", "mixed", "poisson")}}
        for kind, d in degree.items():
            at = [by[c][kind] for c in range(n + 1)]
            if any(len(x) != len(at[0]) or not all(map(sums.number, x)) for x in at):
                ctx.violation(f"{kind} of {effects}: {at}")
                continue
            typical = [max(abs(x) for x in a) for a in at]
            grown = by[n]["growth"] ** (-2 * d)
            rows = [(list(ws) + [0.0], f"weights {ws}") for ws in spec["relations"][str(d)]] + [([0, 0, -grown, 0, 0, 0, 1], f"given at z={zin:.4g}")]
            for i in range(len(at[0])):
                for ws, lab in rows:
                    related += 1
                    v = [w * a[i] for w, a in zip(ws, at)]
                    size = sum(map(abs, v)) + 1e-2 * sum(abs(w) * t for w, t in zip(ws, typical)) * (kind not in ("integral",))
                    if not size:
                        continue
                    e = abs(sum(v)) / size
                    if e > worst.get(kind, (0,))[0]:
                        worst[kind] = (e, f"{effects} {lab} entry {i} {v}")
                    if not e <= (2e-3 if kind == "average" else 1e-4):
                        ctx.violation(f"{kind} of {effects}, entry {i}, is not of degree {d} in the spectrum ({lab} of {spec['combos']}): {v}")
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=len(plan), values_compared=compared, relations_checked=related)


def plan_label(want, w):
    """The steps nearest to an operation."""
    i = next(n for n, x in enumerate(want) if x is w)
    for x in want[i:]:
        if x[0] in ("values", "refused", "default", "ends"):
            return next(y for y in x if isinstance(y, list) and y and isinstance(y[0], str))
    return ["the end"]
