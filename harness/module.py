"""P24: python -m coffe, on command lines and histories of CoffeModule."""
import concurrent.futures as cf
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile

import cli
import pool
import tlc

HEAD = {"r": "r[Mpc]", "r1": "r1[Mpc]", "r2": "r2[Mpc]"}
CALLS = {"cf": "compute_corrfunc_bulk", "mp": "compute_multipoles_bulk", "avg_mp": "compute_average_multipoles_bulk",
         "cov": "compute_covariance_bulk", "avg_cov": "compute_average_covariance_bulk"}
ORDER = ["bg", *CALLS]
MAIN = str(pathlib.Path(__file__).with_name("module_main.py"))


def run(ctx, d, args, threads=2):
    env = {**os.environ, "OMP_NUM_THREADS": str(threads), "PYTHONDONTWRITEBYTECODE": "1"}
    try:
        r = subprocess.run([sys.executable, MAIN, ctx.build, *args], cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return {"rc": None, "err": "", "out": ""}
    return {"rc": r.returncode, "err": r.stderr.decode(errors="replace"), "out": r.stdout.decode(errors="replace")}


def request(rnd, path):
    """A job which writes a settings file with which every kind can be computed, and computes all of them."""
    way = {"kind": "covariance_multipoles", "step": False, "window": False, "fftlog": rnd.random() < 0.3, "table": rnd.choice(["", *cli.BIASES]),
           "spectrum": False}
    light = rnd.random() < 0.8
    req = cli.Settings(rnd, way, contributions=None if light else rnd.choice([["len"], ["g1", "den"], ["g4", "rsd"], ["d2", "d1"]]), light=True)
    z = req.kw["z_mean"]
    req.kw["mu"] = [round(rnd.uniform(-0.95, 0.95), 3) for _ in range(rnd.randint(1, 3))]
    req.kw["z_min"], req.kw["z_max"] = [x - 0.1 for x in z], [x + round(rnd.uniform(0.05, 0.3), 3) for x in z]
    req.kw["background_sampling"] = n = rnd.randint(150, 400)
    req.s["background_sampling"] = n
    job, zs = req.job(path)
    at = next(i for i, x in enumerate(job["ops"]) if x["e"] == "call")
    # a file does not hold a spectrum, but its range
    ops = [x for x in job["ops"][:at] if x.get("s") != "pk"]
    ops += [{"e": "set", "o": 1, "s": "k_min", "v": 10 ** rnd.uniform(-4.5, -3.1)}, {"e": "set", "o": 1, "s": "k_max", "v": 10 ** rnd.uniform(0.5, 2)}]
    ops.append({"e": "to_file", "o": 1, "path": str(path)})
    ops.append({"e": "get", "o": 1, "s": "omega_m"})
    ops += [{"e": "call", "o": 1, "m": m} for m in CALLS.values()]
    ops += [{"e": "calls", "o": 1, "m": m, "args": [[x] for x in zs]} for m in cli.METHODS]
    return {"id": str(path), "ops": ops}, zs


def tables(reply, zs, columns):
    """kind -> rows, as the package computes them; or why not."""
    if "dead" in reply:
        return None, reply["dead"]
    bad = [r for r in reply["out"] if "err" in r]
    if bad:
        return None, bad[0]["err"] + ": " + bad[0]["msg"]
    out = [r["ok"] for r in reply["out"]]
    t = {"bg": [list(x) for x in zip(zs, *out[-7:])]}
    for k, rows in zip(CALLS, out[-12:-7]):
        t[k] = [[r[c] for c in columns[k]] for r in rows]
    return t, None


def judge(text, kind, rows, model):
    """The file against the rows."""
    columns = model["columns"][kind]
    lines = text.split("\n")
    if not lines or lines[-1] != "" or not lines[0].startswith("# "):
        return "not a table with a header and lines"
    names = lines[0][2:].split("\t")
    if len(names) != len(columns):
        return f"the header names {names}"
    for n, c in zip(names, columns):
        c = HEAD.get(c, c)
        if kind == "bg":
            n = n.split(")", 1)[-1].split("[")[0]
        if not (n.endswith("_value") if c == "value" else n == c):
            return f"the header has {n} for {c}"
    have = [x.split("\t") for x in lines[1:-1]]
    if len(have) != len(rows):
        return f"{len(have)} rows where the package has {len(rows)}"
    for i, c in enumerate(columns):
        size = max([abs(r[i]) for r in rows] + [0.0])
        for h, w in zip(have, rows):
            if len(h) != len(columns):
                return f"a row of {len(h)} columns"
            try:
                x = int(h[i]) if c in model["integer"] else float(h[i])
            except ValueError:
                return f"{c} is {h[i]}"
            tol, noise = (1e-9, 0) if c != "value" else (1e-5, 1e-9) if kind == "avg_mp" else (1e-8, 1e-12 if kind == "mp" else 1e-15 if kind == "cf" else 0)
            if not cli.close(x, w[i], noise + 1e-11 * size * (c == "value" or kind == "bg"), tol):
                return f"{c} is {h[i]} where the package has {w[i]!r}, in the row {' '.join(h)}"
    return None


def p24(ctx):
    ctx.add(**tlc.model_check("CoffeModule"))
    model = tlc.export("CoffeModuleExport")
    out = tlc.tlc("CoffeModuleHistory", ("-simulate", f"num={ctx.q(32, 300)}", "-depth", "20", "-seed", str(ctx.seed * 13 + 3), "-workers", "1"))
    hists = tlc.printed(out, "HISTORY")
    top = pathlib.Path(tempfile.mkdtemp(prefix="coffe-module-"))
    try:
        _histories(ctx, top, model, hists)
        _lines(ctx, top, model)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _histories(ctx, top, model, hists):
    # the settings of every version, and what the package makes of them
    jobs, zs = [], {}
    for i, h in enumerate(hists):
        d = top / str(i)
        d.mkdir()
        for s in (1, 2):
            n = 1 + sum(x["e"] == "rewrite" and x["s"] == s for x in h)
            for v in range(1, n + 1):
                job, z = request(random.Random(ctx.seed * 7919 + i * 100 + s * 10 + v), d / f"v{s}-{v}")
                zs[job["id"]] = z
                jobs.append(job)
    replies = pool.run_jobs(ctx.build, jobs, 8, 600)
    want = {}
    for j in jobs:
        t, why = tables(replies[j["id"]], zs[j["id"]], model["columns"])
        if t is None:
            ctx.violation(f"the package cannot compute a request: {why}", job=j["ops"])
            return
        want[j["id"]] = t
    ctx.log("package", len(jobs))

    def one(item):
        i, h = item
        r = random.Random(ctx.seed * 104729 + i)
        d = top / str(i)
        names = {1: r.choice(["out", "out.dat", "out.txt"]), 2: "sub/" + r.choice(["x", "y.csv"])}
        (d / "sub").mkdir()
        settings = {1: "one.cfg", 2: r.choice(["two", "two words.cfg"])}
        for s in (1, 2):
            shutil.copy(d / f"v{s}-1", d / settings[s])
        (d / "impossible.cfg").write_text((d / "v1-1").read_text() + "\n")
        kept = {}
        for n, x in enumerate(h):
            if x["e"] == "rewrite":
                shutil.copy(d / f"v{x['s']}-{x['version']}", d / settings[x["s"]])
                continue
            q = x["run"]
            f = q["fault"]
            what = f"step {n + 1} of history {i} ({q['kind']}, {f})"
            s, o, k = settings[q["s"]], names[q["o"]], q["kind"]
            if f == "absent":
                s = "absent.cfg"
            if f == "bad":
                (d / "bad.cfg").write_text((d / settings[q["s"]]).read_text() + r.choice(["\nomega_m = 3.0;\n", "\nsep = [;\n", '\nmu = ["a"];\n'] ))
                s = "bad.cfg"
            if f == "impossible":
                # points beyond the observer; surveys which are not those of the redshifts
                s, k = "beyond.cfg", k if k != "bg" else "cf"
                lines = (d / settings[q["s"]]).read_text().splitlines()
                lines = [y for y in lines if not y.startswith(("sep = ", "mu = ")) and not ("cov" in k and y.startswith("fsky = "))]
                (d / s).write_text("\n".join(lines) + ("\nfsky = [0.5, 0.5, 0.5, 0.5]\nsep = [50.0]\n" if "cov" in k else "\nsep = [9900.0, 9950.0]\nmu = [0.95]\n"))
            if f == "unwritable":
                o = r.choice(["no/folder/x", "sub", ""])
            if f == "kind":
                k = r.choice(["CF", "power", "mp2", ""])
            a = [["-s", "--settings"], ["-o", "--output"], ["-k", "--kind"]]
            pairs = [(r.choice(b), v) for b, v in zip(a, (s, o, k))]
            if f == "missing":
                pairs.remove(r.choice(pairs))
            r.shuffle(pairs)
            args = []
            for b, v in pairs:
                args += [b, v] if r.random() < 0.6 or not v else [b + "=" + v] if b.startswith("--") else [b + v]
            res = run(ctx, d, args, r.choice([1, 2, 4]))
            if f == "none":
                if res["rc"] != 0:
                    return f"{what}: {' '.join(args)}: status {res['rc']}: {res['err'][-300:]}"
            elif res["rc"] in (None, 0) or res["rc"] < 0 or not res["err"].strip():
                return f"{what}: {' '.join(args)}: status {res['rc']}, {res['err'][-200:]!r}"
            for p, e in enumerate(x["out"], 1):
                file = d / names[p]
                if e["kind"] == "":
                    if file.exists():
                        return f"{what}: {file.name} is there"
                    continue
                if not file.is_file():
                    return f"{what}: {file.name} is not there"
                text = file.read_text()
                if p == q["o"] and f == "none":
                    bad = judge(text, e["kind"], want[str(d / f"v{e['settings']}-{e['version']}")][e["kind"]], model)
                    if bad:
                        return f"{what}: {bad}\n" + (d / settings[q["s"]]).read_text()
                    kept[p] = text
                elif kept.get(p) != text:
                    return f"{what}: {file.name} changed"
            known = {names[1], names[2][4:], "sub", *settings.values(), "bad.cfg", "beyond.cfg", "impossible.cfg", "out"}
            extra = {y.name for y in [*d.iterdir(), *(d / "sub").iterdir()] if not (y.name.startswith("v") and "-" in y.name)} - known
            if extra:
                return f"{what}: leaves {sorted(extra)}"
        return None

    with cf.ThreadPoolExecutor(8) as ex:
        for b in ex.map(one, list(enumerate(hists))):
            if b:
                ctx.violation(b)
    ctx.add(traces_validated_against_impl=len(hists), runs=sum(x["e"] == "run" for h in hists for x in h))
    ctx.sample(hists[0][0] if hists else {})
    ctx.log("histories", len(hists))


def _lines(ctx, top, model):
    rnd = random.Random(ctx.seed * 3 + 24)
    by = {}
    for x in model["lines"]:
        by.setdefault(x["asks"], []).append(x)
    n = ctx.q({"run": 8, "failure": 14, "usage": 18, "help": 3, "version": 3}, {"run": 200, "failure": 300, "usage": 200, "help": 20, "version": 20})
    todo = [x for k, v in sorted(by.items()) for x in rnd.sample(v, min(len(v), n[k]))]
    src = top / "base"
    src.mkdir()
    job, _ = request(random.Random(ctx.seed), src / "good.cfg")
    pool.run_jobs(ctx.build, [job], 1, 300)
    text = (src / "good.cfg").read_text()

    def one(item):
        x, seed = item
        r = random.Random(seed)
        d = pathlib.Path(tempfile.mkdtemp(dir=top))
        (d / "good.cfg").write_text(text)
        (d / "bad.cfg").write_text(text + r.choice(["\nomega_m = -1.0;\n", "\n= 3;\n"]))
        value = {"good": "good.cfg", "bad": "bad.cfg", "absent": "nothing.cfg", "out": "out.dat", "nowhere": "no/where/out.dat", "cf": "cf", "wrong": "corrfunc"}
        args = []
        for a in x["args"]:
            o, _, v = a.partition(" ")
            args += [o, value[v]] if v else [o]
        res = run(ctx, d, args)
        left = {y.name for y in d.iterdir()} - {"good.cfg", "bad.cfg"}
        shutil.rmtree(d)
        what = "python -m coffe " + " ".join(args)
        asks = x["asks"]
        if asks == "run":
            return None if res["rc"] == 0 and left == {"out.dat"} else f"{what}: status {res['rc']}, {sorted(left)}, {res['err'][-200:]}"
        if left:
            return f"{what}: leaves {sorted(left)}"
        if asks in ("help", "version"):
            return None if res["rc"] == 0 and res["out"].strip() else f"{what}: status {res['rc']}"
        return None if res["rc"] not in (None, 0) and res["rc"] > 0 and res["err"].strip() else f"{what}: status {res['rc']}"

    with cf.ThreadPoolExecutor(8) as ex:
        for b in ex.map(one, [(x, ctx.seed * 31 + i) for i, x in enumerate(todo)]):
            if b:
                ctx.violation(b)
    ctx.add(command_lines=len(todo))
    ctx.log("command lines", len(todo))
