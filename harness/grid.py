"""P08: bulk requests over grids of every shape, ordered as CoffeGrid states, against single-point requests."""
import json
import math
import os
import random
import tempfile

import pool
import sums
import terms
import tlc

#: the names of a result's coordinates along the axes of CoffeGrid, and where to_dict puts them
ROWS = {"corrfunc": ("mu", "r", "value", "z"), "multipoles": ("l", "r", "value", "z"),
        "average_multipoles": ("l", "r", "value", "z_max", "z_min"),
        "covariance": ("l1", "l2", "r1", "r2", "value", "z"),
        "average_covariance": ("l1", "l2", "r1", "r2", "value", "z_max", "z_min")}
ASK = {"corrfunc": "cfb", "multipoles": "mpb", "average_multipoles": "ampb", "covariance": "covb", "average_covariance": "acovb"}
PERBIN = ("deltaz", "number_density1", "number_density2", "pixelsize", "fsky")


def coordinates(kind, axes, entry, cfg):
    """What the entry with these indices has to be labelled."""
    out, seen = {}, {}
    for a, i in zip(axes, entry):
        if a == "bin":
            out["z_min"], out["z_max"] = cfg["z_min"][i - 1], cfg["z_max"][i - 1]
            continue
        n = {"z_mean": "z", "mu": "mu", "l": "l", "sep": "r"}[a]
        if kind in ("covariance", "average_covariance") and n in ("l", "r"):
            seen[n] = seen.get(n, 0) + 1
            n += str(seen[n])
        out[n] = cfg[a][i - 1]
    return out


def configuration(rnd, big=False, lensing=False):
    nz, nb = rnd.randint(1, 3), rnd.randint(1, 3)
    if rnd.random() < 0.4:
        nb = nz
    z = [rnd.uniform(0.3, 1.8) for _ in range(nz)]
    lo = [rnd.uniform(0.3, 1.6) for _ in range(nb)]
    hi = [a + rnd.uniform(0.1, 0.5) for a in lo]
    sep = [rnd.uniform(6, 160) for _ in range(rnd.randint(1, 4))]
    if rnd.random() < 0.3:
        sep.append(sep[0])
    mu = [rnd.choice([0.0, 0.9999, -0.9999, rnd.uniform(-1, 1), rnd.uniform(-1, 1)]) for _ in range(rnd.randint(1, 4))]
    ls = rnd.sample(range(0, 7), rnd.randint(1, 3))
    if big:
        z, sep = [1.3, 0.4, 0.9], [rnd.uniform(5, 180) for _ in range(120)]
        mu, ls = [0.9, -0.999, 0.0, 0.25, 0.9999], rnd.sample(range(10), 6)
    e = ["density"] + [x for x in ("rsd", "d1") if rnd.random() < 0.6] + (["lensing"] if lensing else [])
    rnd.shuffle(e)
    return {"z_mean": z, "z_min": lo, "z_max": hi, "sep": sep, "mu": mu, "l": ls, "effects": e,
            "flat": [s for s in sums.SWITCH if rnd.random() < 0.25],
            "per": [{"deltaz": rnd.uniform(0.03, 0.2), "number_density1": rnd.uniform(2e-4, 3e-3), "number_density2": rnd.uniform(2e-4, 3e-3),
                     "pixelsize": rnd.uniform(4, 12), "fsky": rnd.uniform(0.1, 1)} for _ in range(3)],
            "cov": {"covariance_integration_sampling": 128, "covariance_integration_method": rnd.choice(["standard", "standard", "fftlog"]), "has_binned_covariance": rnd.random() < 0.5,
                    "covariance_populations": rnd.choice([[1, 2, 1, 2], [1, 1, 1, 1], [1, 2, 2, 1], [1, 1, 2, 2]])}}


def per(cfg, idx):
    return [{"e": "set", "o": 1, "s": s, "v": [cfg["per"][i][s] for i in idx]} for s in PERBIN]


def same(a, b, rtol):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or abs(a - b) <= rtol * max(abs(a), abs(b))


def p08(ctx):
    rnd = random.Random(ctx.seed * 101 + 8)
    mc = tlc.model_check("CoffeGridCheck")
    cfgs = [configuration(rnd) for _ in range(ctx.q(40, 600))]
    cfgs += [configuration(rnd, lensing=True) for _ in range(ctx.q(6, 60))]
    cfgs += [configuration(rnd, big=True) for _ in range(ctx.q(2, 8))]
    shapes, at = [], []
    for ci, c in enumerate(cfgs):
        # a covariance of a separation with itself has no meaning if the separation is there twice
        big = len(c["sep"]) > 20 or len(set(c["sep"])) < len(c["sep"])
        for k in ROWS:
            if big and k.endswith("covariance"):
                continue
            shapes.append({"kind": k, "lengths": {a: len(c[a if a != "bin" else "z_min"]) for a in ("z_mean", "bin", "l", "mu", "sep")}})
            at.append((ci, k))
    with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="coffe-shapes-") as f:
        json.dump(shapes, f)
        f.flush()
        exp = {a: x for a, x in zip(at, tlc.export("CoffeGridExport", env={"SHAPES": f.name}))}
    jobs, plan = [], []
    for ci, c in enumerate(cfgs):
        m = terms.Model(rnd, rnd.choice(["lcdm", "w0wa"]))
        m.kw.update(integration_sampling=400, background_sampling=1000)
        kw = {s: c[s] for s in ("z_mean", "z_min", "z_max", "sep", "mu", "l")}
        ops = [m.new(c["effects"], **kw, **c["cov"], **{"has_" + s: True for s in c["flat"]})]
        bulk, points = {}, []
        kinds = [k for k in ROWS if (ci, k) in exp]
        rnd.shuffle(kinds)
        for k in kinds:
            if k.endswith("covariance"):
                ops += per(c, range(len(c["z_mean"] if k == "covariance" else c["z_min"])))
            ops.append({"e": "ask", "o": 1, "k": ASK[k]})
            bulk[k] = len(ops) - 1
        for k, n in (("corrfunc", ctx.q(60, 200)), ("multipoles", ctx.q(30, 100))):
            es = exp[(ci, k)]
            idx = sorted(rnd.sample(range(len(es["entries"])), min(n, len(es["entries"]))))
            co = [coordinates(k, es["axes"], es["entries"][i], c) for i in idx]
            ops.append({"e": "calls", "o": 1, "m": "compute_corrfunc" if k == "corrfunc" else "compute_multipole", "args": co})
            points.append((k, idx, len(ops) - 1, None))
        # a grid of one entry (covariance: of the entry's own coordinates)
        for k, n in (("average_multipoles", 4), ("covariance", 4), ("average_covariance", 4)):
            if (ci, k) not in exp:
                continue
            es = exp[(ci, k)]
            for i in rnd.sample(range(len(es["entries"])), min(n, len(es["entries"]))):
                e, co = es["entries"][i], coordinates(k, es["axes"], es["entries"][i], c)
                one = {"sep": [co["r"]], "l": [co["l"]]} if k == "average_multipoles" else \
                    {"sep": [x for x in c["sep"] if x in (co["r1"], co["r2"])], "l": [x for x in c["l"] if x in (co["l1"], co["l2"])]}
                if k == "covariance":
                    one["z_mean"] = [co["z"]]
                else:
                    one["z_min"], one["z_max"] = [co["z_min"]], [co["z_max"]]
                ops += [{"e": "set", "o": 1, "s": s, "v": v} for s, v in one.items()]
                if k.endswith("covariance"):
                    ops += per(c, [e[0] - 1])
                ops.append({"e": "ask", "o": 1, "k": ASK[k]})
                points.append((k, [i], len(ops) - 1, co))
        jobs.append({"id": str(ci), "ops": ops})
        plan.append((bulk, points))
    rep = pool.run_jobs(ctx.build, jobs, timeout=600)
    ctx.log("evaluated")
    worst = sums.Worst()
    entries = single = 0
    for ci, c in enumerate(cfgs):
        label = f"grid {ci} ({'+'.join(c['effects'])} {c['flat']} {len(c['z_mean'])} z, {len(c['z_min'])} bins, {len(c['mu'])} mu, {len(c['l'])} l, {len(c['sep'])} sep)"
        r = rep[str(ci)]
        if "dead" in r or any("err" in x for x in r["out"]):
            ctx.violation(f"{label}: {[x for x in r.get('out', [r]) if 'err' in x or 'dead' in x][:1]}", config=c)
            continue
        bulk, points = plan[ci]
        rows = {}
        for k, n in bulk.items():
            got = r["out"][n]["ok"]
            es = exp[(ci, k)]
            if isinstance(got, str):
                ctx.violation(f"{label}: {k}: {got}", config=c)
                continue
            got = [dict(zip(ROWS[k], x)) for x in got]
            rows[k] = got
            entries += len(got)
            if len(got) != len(es["entries"]):
                ctx.violation(f"{label}: {k} has {len(got)} entries instead of {len(es['entries'])}", config=c)
                del rows[k]
                continue
            for i, (g, e) in enumerate(zip(got, es["entries"])):
                co = coordinates(k, es["axes"], e, c)
                if {x: g[x] for x in co} != co:
                    ctx.violation(f"{label}: {k}: entry {i} is labelled {g} instead of {co}", config=c)
                    break
                if not sums.number(g["value"]):
                    ctx.violation(f"{label}: {k}: entry {i} has the value {g['value']}", config=c)
                    break
        for k, idx, n, co in points:
            if k not in rows:
                continue
            got = r["out"][n]["ok"]
            if co is None:
                vals = got
            else:
                if isinstance(got, str):
                    ctx.violation(f"{label}: {k} at {co} alone: {got}", config=c)
                    continue
                vals = [x["value"] for x in (dict(zip(ROWS[k], y)) for y in got) if {a: x[a] for a in co} == co][:1]
            for i, v in zip(idx, vals):
                single += 1
                b = rows[k][i]["value"]
                err = abs(b - v) if sums.number(v) else math.inf
                # a value that nearly cancels is compared on the scale of the grid's others
                scale = max(abs(b), 1e-6 * max(abs(x["value"]) for x in rows[k]))
                worst((k,), err, 1e-6 * scale, label, rows[k][i], v)
                if not err <= 1e-6 * scale:
                    ctx.violation(f"{label}: {k}: entry {rows[k][i]} has the value {v!r} when computed alone", config=c)
                    break
    ctx.sample({"shape": shapes[0], "entries": exp[at[0]]["entries"][:4]})
    ctx.worst = worst.d
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=len(exp), entries=entries, single_points=single)
