"""P06: settings files, on histories of CoffeFileHistory and of CoffeBudgetHistory, and on files people write."""
import concurrent.futures as cf
import os
import random
import tempfile

import budget
import inputs
import pool
import sessions as S
import sums
import tlc
import values

HASHES = ("0", "1", "77")


class FileScript(inputs.GetScript):
    """A history with files; objects made afresh have the valuation concretely."""

    def __init__(self, jid, ctxname, label, table, folder):
        super().__init__(jid, ctxname, label, table)
        self.folder = folder

    def concrete(self, val):
        out, late = [], []
        for s in sorted(val):
            v = val[s]
            if s == "pk":
                continue
            if s in ("k_min", "k_max") and v >= 100:
                if not val["pk"]:
                    k = self.t["pk"][v - 100][0]
                    out.append((s, k[0] if s == "k_min" else k[-1]))
                continue
            out.append((s, self.t[s][v]))
        return out + ([("pk", self.t["pk"][val["pk"]])] if val["pk"] else [])

    def new(self, o, val, build=True):
        self.ops.append({"e": "new", "o": o, "set": self.concrete(val)})
        self.ev.append({"e": "new", "o": o, "val": {k: v for k, v in val.items() if v}})

    def path(self, f):
        return f"{self.folder}/{self.id.replace('/', '_')}.{f}.cfg"

    def save(self, o, f):
        self.ops.append({"e": "to_file", "o": o, "path": self.path(f)})
        self.ev.append({"e": "read", "o": o})

    def load(self, o, f, val):
        self.ops.append({"e": "from_file", "o": o, "path": self.path(f)})
        self.ev.append({"e": "new", "o": o, "val": {k: v for k, v in val.items() if v}})

    def trace(self, reply, samekind, tokens=None):
        tok = tokens or values.Tokens()
        ev = []
        for e, op, r in zip(self.ev, self.ops, reply["out"]):
            e = dict(e)
            if e["e"] == "gets" and "ok" in r:
                e["out"] = {s: self.token(s, x) for s, x in r["ok"].items()}
            elif e["e"] == "ask":
                k = samekind.get(e["k"], e["k"])
                e["out"] = tok(k, r["ok"] if "ok" in r else "error " + r["err"])
            elif e["e"] == "set":
                e["out"] = "ok" if "ok" in r else "refused"
            elif "err" in r:
                e["e"], e["why"] = "broken", r["err"] + ": " + r["msg"]
            ev.append(e)
        return ev


def histories(n, seed, depth=41):
    out = tlc.tlc("CoffeFileHistory", ("-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"))
    return tlc.printed(out, "HISTORY")


def scripts_of(ctx, rnd, folder):
    T = S.tables()
    names = sorted(s for s in T["settings"] if s != "pk")
    out, last = [], []
    for i, h in enumerate(histories(ctx.q(42, 800), ctx.seed * 19 + 4)):
        c0 = ("plain", "flat", "bins", "pk")[i % 4]
        table = inputs.random_values(rnd, c0)
        for x in ("w0", "wa", "integration_1d_prec", "m_ncdm"):      # values next to special ones take long to integrate
            table[x] = list(values.V[x])
        table["pk"] = [None] + [values.pk_table(1), values.pk_table(2)]
        sc = FileScript(f"files/{c0}/{i}", c0, f"files history {i} ({c0})", table, folder)
        held = {}
        for e in h:
            o = e.get("o")
            if e["e"] == "new":
                sc.new(o, e["val"])
            elif e["e"] == "set":
                sc.set(o, e["s"], e["v"])
            elif e["e"] == "ask":
                sc.ask(o, e["k"])
            elif e["e"] == "save":
                sc.save(o, e["f"])
                sc.gets(o, names)
                held[e["f"]] = e["val"]
            elif e["e"] == "load":
                sc.load(o, e["f"], e["val"])
                sc.gets(o, names)
                for k in rnd.sample(["background", "power", "integral", "cf1", "mp1", "cfb", "mpb", "covb", "biases", "acovb"], 2):
                    sc.ask(o, k)
                    S.fresh(sc, e["val"], [k])
                if rnd.random() < 0.5:       # the same spectrum for both
                    v = rnd.choice([1, 2])
                    sc.set(o, "pk", v)
                    k = rnd.choice(["cf1", "mpb", "covb", "power"])
                    sc.ask(o, k)
                    S.fresh(sc, {**e["val"], "pk": v, "k_min": 100 + v, "k_max": 100 + v}, [k])
                    sc.load(o, e["f"], e["val"])
        for f, v in held.items():       # written by what was read
            sc.load(800 + f, f, v)
            sc.save(800 + f, f)
            sc.load(810 + f, f, v)
            sc.gets(810 + f, names)
        out.append(sc)
    # everything different from a new object, all settings at once
    for i in range(ctx.q(60, 600)):
        c0 = ("plain", "flat", "bins", "div")[i % 4]
        table = inputs.random_values(rnd, c0)
        sc = FileScript(f"all/{c0}/{i}", c0, f"all settings ({c0}, {i})", table, folder)
        val = {s: rnd.randint(0, T["settings"][s]["max"]) for s in T["settings"]}
        val.update(pk=0, pk_type=0)
        sc.new(1, val)
        sc.save(1, 1)
        sc.gets(1, names)
        sc.load(2, 1, val)
        sc.gets(2, names)
        sc.save(2, 2)
        sc.load(3, 2, val)
        sc.gets(3, names)
        out.append(sc)
    return out


def universes(ctx, rnd, folder):
    """Histories of densities with files in between: (job, what is expected after each operation)."""
    jobs, plan = [], {}
    for g, (whole, borderline, n) in enumerate([(16, True, ctx.q(40, 400)), (10, False, ctx.q(40, 400)), (64, True, ctx.q(20, 200))]):
        for i, h in enumerate(budget.behaviours(n, 40, whole, borderline, ctx.seed * 1000 + 500 + g)):
            un = budget.Units(whole, rnd.uniform(0.3, 0.6))
            start = {"omega_gamma": 0, "omega_baryon": 0, "omega_m": un.value("omega_m", whole // 3), "h": un.value("h", 2), "m_ncdm": 0}
            ops, want, steps = [{"e": "new", "o": 1, "kw": start}], [None], []
            path = f"{folder}/u{g}-{i}.cfg"
            for e in h:
                if e["e"] == "nothing":
                    continue
                if e["e"] == "set":
                    todo = [(e["s"], e["v"])] if e["ok"] else []
                else:
                    todo = e["todo"]
                    if e["e"] == "new":
                        ops.append({"e": "new", "o": 1, "kw": start})
                        want.append(None)
                        steps.append("new")
                if todo:
                    kw = {s: un.value(s, v) for s, v in todo}
                    ops.append({"e": "setall", "o": 1, "kw": kw})
                    want.append(None)
                    steps.append(", ".join(f"{s}={v:.9g}" for s, v in kw.items()))
                if rnd.random() < 0.4:
                    ops += [{"e": "to_file", "o": 1, "path": path}, {"e": "from_file", "o": 2, "path": path, "must": False}, {"e": "getall", "o": 2, "names": budget.SEEN}]
                    want += [None, None, (e["seen"], len(steps))]
                    if rnd.random() < 0.3:     # go on with what was read
                        ops.append({"e": "from_file", "o": 1, "path": path, "must": False})
                        want.append(None)
                        steps.append("read from a file")
            k = f"u{g}-{i}"
            jobs.append({"id": k, "ops": ops})
            plan[k] = (un, want, steps)
    return jobs, plan


def judge_universes(ctx, rep, plan):
    n = compared = 0
    for k, (un, want, steps) in plan.items():
        r = rep[k]
        if "dead" in r:
            ctx.violation(f"{r['dead']} during {steps}", replay=r)
            continue
        n += 1
        for j, (w, o) in enumerate(zip(want, r["out"])):
            done = next((x[1] for x in want[j:] if x), len(steps))
            if "ok" not in o:
                ctx.violation(f"{o['err']}: {o['msg']} (operation {j}) after {'; '.join(steps[:done])}")
                break
            if w is None:
                continue
            bad = [f"{s} is {g!r}, was {un.value(s, w[0][s]):.12g}" for s, g in o["ok"].items()
                   if not abs(g - un.value(s, w[0][s])) <= 1e-12 * (1 + abs(g))]
            compared += len(o["ok"])
            if bad:
                ctx.violation(f"read from a file: {bad[0]}; after {'; '.join(steps[:done])}")
                break
    return n, compared


def same(a, b):
    """What was read against what was written: numbers exactly, biases up to the rounding of their splines."""
    for s in a:
        x, y = a[s], b.get(s)
        if "bias" in s:
            if not (inputs.exactly(x[0], y[0]) and values.same(list(x[1]), list(y[1]), 1e-9, 1e-9)):
                return s
        elif s == "omega_cdm":
            if abs(x - y) > 1e-12:
                return s
        elif not inputs.exactly(x, y):
            return s
    return None


def spans(ctx, rnd, folder):
    """Spectra of any range, lists of any length, numbers of any size."""
    jobs, info = [], {}
    names = sorted(s for s in S.tables()["settings"] if s != "pk") + ["omega_cdm"]
    for i in range(ctx.q(40, 300)):
        lo = 10 ** rnd.uniform(-6, -0.5)
        hi = lo * 10 ** rnd.uniform(0.7, 5)
        n = rnd.randint(5, 80)
        k = [float(lo * (hi / lo) ** (j / (n - 1))) for j in range(n)]
        p = [1e3 * x / (1 + (x / 0.02) ** 2.4) for x in k]
        lists = {"sep": rnd.choice([[], [rnd.uniform(1e-9, 1e-3)], [rnd.uniform(1, 9999) for _ in range(rnd.randint(1, 300))], list(range(1, 30))]),
                 "mu": rnd.choice([[], [rnd.uniform(-1e-12, 1e-12)], [rnd.uniform(-1, 1) for _ in range(rnd.randint(1, 9))]]),
                 "l": rnd.choice([[], [rnd.randint(0, 9)], list(range(10)), [4, 0, 2]]),
                 "z_mean": rnd.choice([[], [1, 2], [rnd.uniform(0, 9.9) for _ in range(rnd.randint(1, 6))]]),
                 "z_min": rnd.choice([[], [0.5]]), "pixelsize": rnd.choice([[], [rnd.uniform(1e-5, 999)] * 2, [{"$": "npfloat", "v": rnd.uniform(1, 20)}]]),
                 "number_density1": rnd.choice([[], [10 ** rnd.uniform(-30, 0)], [0.0, 1e-300]]), "fsky": rnd.choice([[], [1], [1e-7, 1.0]]),
                 "deltaz": rnd.choice([[], [1e-9], [3]])}
        form = lambda v: rnd.choice([v, {"$": "tuple", "v": v}, {"$": "array", "v": v}]) if v and not isinstance(v[0], dict) else v
        kw = {s: form(v) if s != "l" else v for s, v in lists.items() if rnd.random() < 0.6}
        kw.update({s: v for s, v in {"sigma8": 10 ** rnd.uniform(-12, 1), "A_s": 10 ** rnd.uniform(-30, 0), "wa": rnd.choice([-0.0, 1e-17, 3, -1.5e-5]),
                                     "integration_1d_prec": 10 ** rnd.uniform(-12, 0), "h": rnd.choice([1, 1e-3, 0.1 + 0.2]), "n_s": 1,
                                     "integration_sampling": rnd.choice([2, 2 ** 31 - 1]), "background_sampling": 12345678}.items() if rnd.random() < 0.4})
        supplied = rnd.random() < 0.6
        a, b = f"{folder}/s{i}a.cfg", f"{folder}/s{i}b.cfg"
        pk = {"e": "set", "o": 1, "s": "pk", "v": [k, p]}
        ops = [{"e": "new", "o": 1, "kw": kw}] + ([pk] if supplied else []) + [{"e": "set", "o": 1, "s": "h", "v": 0.7}] * (rnd.random() < 0.3) + [
               {"e": "getall", "o": 1, "names": names}, {"e": "to_file", "o": 1, "path": a}, {"e": "from_file", "o": 2, "path": a, "must": False},
               {"e": "getall", "o": 2, "names": names}, {"e": "to_file", "o": 2, "path": b}, {"e": "from_file", "o": 3, "path": b, "must": False},
               {"e": "getall", "o": 3, "names": names}]
        jobs.append({"id": f"s{i}", "ops": ops})
        info[f"s{i}"] = f"{kw}" + (f" and a spectrum from {lo:.4g} to {hi:.4g}" if supplied else "")
    return jobs, info


def judge_spans(ctx, rep, info):
    n = 0
    for k, what in info.items():
        r = rep[k]
        if "dead" in r:
            ctx.violation(f"{r['dead']} with {what}", replay=r)
            continue
        bad = next((f"{o['err']}: {o['msg']} (operation {j})" for j, o in enumerate(r["out"]) if "err" in o), None)
        if not bad:
            got = [o["ok"] for o in r["out"] if isinstance(o["ok"], dict)]
            for x in got[1:]:
                s = same(got[0], x)
                n += len(x)
                if s:
                    bad = f"{s} is {x.get(s)!r}, was {got[0][s]!r}"
                    break
        if bad:
            ctx.violation(f"an object with {what}, read from its file: {bad}"[:1500])
    return n


def handwritten(ctx, rnd, folder, spec):
    """Files in the style of the sample files: (text, settings that are expected)."""
    T = S.tables()["settings"]
    jobs, plan = [], {}
    names = sorted(s for s in T if s != "pk")
    older = spec["older"]
    for i in range(ctx.q(40, 300)):
        table = inputs.random_values(rnd, rnd.choice(["plain", "bins"]))
        lines, expected = [], {}
        show = lambda v: (rnd.choice(["[{}]", "{}", "[ {} ]"]).format(rnd.choice([", ", ","]).join(map(repr, v))) if isinstance(v, list)
                          else str(int(v)) if isinstance(v, bool) else v if isinstance(v, str) else repr(v))
        value = lambda s: rnd.choice([v for v in table[s]])
        for n in rnd.sample(sorted(older), rnd.randint(0, len(older))):
            v = value(older[n][0])
            lines.append((n, show(v)))
            for s in older[n]:
                expected[s] = v
        newer = [s for s in names if "bias" not in s and s not in ("pk_type",)]
        for s in rnd.sample(newer, rnd.randint(0, 15)):
            v = value(s)
            lines.append((s, show(v)))
            expected[s] = v
        for n in rnd.sample(spec["without"], rnd.randint(0, 2)):
            lines.append((n, str(rnd.randint(5, 50))))
        for b in rnd.sample([s for s in names if s.endswith(("_bias1", "_bias2"))], rnd.randint(0, 5)):
            how = rnd.choice(["constant", "file", "tables"])
            t = value(b)
            if how == "constant":
                v = round(rnd.uniform(-1, 3), 4)
                lines += [(b, repr(v)), (f"read_{b}", "0"), (f"input_{b}", '""')]
                expected[b] = (v,)
            elif how == "file":
                f = f"{folder}/h{i}-{b}.dat"
                with open(f, "w") as out:
                    out.write("# z b\n" + "".join(f"{x!r} {y!r}\n" for x, y in zip(*t)))
                lines += [(b, "7"), (f"read_{b}", "1"), (f"input_{b}", f'"{f}"')]
                expected[b] = t
            else:
                lines += [(f"{b}_redshifts", str(list(t[0]))), (f"{b}_values", str(list(t[1])))]
                expected[b] = t
        rnd.shuffle(lines)
        text = "# a file\n\n" + "".join(rnd.choice(["", "", "# a comment\n", "\n", "### (1.a)\n"]) + f"{n}{rnd.choice([' = ', '=', ' =  '])}{v}{rnd.choice(['', ';'])}\n" for n, v in lines)
        a, b = f"{folder}/h{i}.cfg", f"{folder}/h{i}b.cfg"
        with open(a, "w") as out:
            out.write(text)
        jobs.append({"id": f"h{i}", "ops": [{"e": "new", "o": 0}, {"e": "getall", "o": 0, "names": names}, {"e": "from_file", "o": 1, "path": a, "must": False}, {"e": "getall", "o": 1, "names": names},
                                            {"e": "to_file", "o": 1, "path": b}, {"e": "from_file", "o": 2, "path": b, "must": False}, {"e": "getall", "o": 2, "names": names}]})
        plan[f"h{i}"] = (text, expected)
    return jobs, plan


def judge_handwritten(ctx, rep, plan):
    n = 0
    for k, (text, expected) in plan.items():
        r = rep[k]
        bad = r.get("dead") or next((f"{o['err']}: {o['msg']} (operation {j})" for j, o in enumerate(r["out"]) if "err" in o), None)
        if not bad:
            new, first, again = (o["ok"] for o in r["out"] if isinstance(o["ok"], dict))
            for s, got in first.items():
                n += 1
                if s not in expected:
                    ok = inputs.exactly(got, new[s])
                elif "bias" in s and len(expected[s]) == 1:
                    ok = all(abs(y - expected[s][0]) < 1e-12 for y in got[1])
                elif "bias" in s:
                    ok = values.same([list(got[0]), list(got[1])], [list(map(float, t)) for t in expected[s]], 1e-9, 1e-9)
                else:
                    ok = inputs.exactly(got, expected[s])
                if not ok:
                    bad = f"{s} is {got!r}, the file means {expected.get(s, new[s])!r}"
                    break
            s = bad or same(first, again)
            if s and not bad:
                bad = f"{s} is {again.get(s)!r} after writing what was read, was {first[s]!r}"
        if bad:
            ctx.violation(f"{bad}; file:\n{text}"[:3000])
    return n


def p06(ctx):
    mc = tlc.model_check("CoffeFile")
    spec = tlc.export("CoffeFileExport")
    rnd = random.Random(ctx.seed * 211 + 6)
    with tempfile.TemporaryDirectory(prefix="coffe-files-") as folder:
        scripts = scripts_of(ctx, rnd, folder)
        ctx.log(f"{len(scripts)} histories with files")
        with cf.ThreadPoolExecutor(len(HASHES)) as ex:
            list(ex.map(lambda h: S.decide(ctx, scripts[h::len(HASHES)], env={"PYTHONHASHSEED": HASHES[h]}, nproc=3), range(len(HASHES))))
        uj, up = universes(ctx, rnd, folder)
        sj, si = spans(ctx, rnd, folder)
        hj, hp = handwritten(ctx, rnd, folder, spec)
        rest = uj + sj + hj
        rep = {}
        for h, seed in enumerate(HASHES):
            rep.update(pool.run_jobs(ctx.build, rest[h::len(HASHES)], timeout=300, env={"PYTHONHASHSEED": seed}))
        ctx.log(f"{len(uj)} universes, {len(sj)} ranges, {len(hj)} written files")
        n, compared = judge_universes(ctx, rep, up)
        compared += judge_spans(ctx, rep, si)
        compared += judge_handwritten(ctx, rep, hp)
        # read by a process with another seed
        by = {}
        for sc in scripts:
            if sc.id.startswith("all/") and os.path.exists(sc.path(1)):
                by[sc.id] = sc
        names = sorted(s for s in S.tables()["settings"] if s != "pk")
        jobs = [{"id": k, "ops": [{"e": "from_file", "o": 1, "path": sc.path(1), "must": False}, {"e": "getall", "o": 1, "names": names}]} for k, sc in by.items()]
        other = pool.run_jobs(ctx.build, jobs, env={"PYTHONHASHSEED": "4242"})
        for k, sc in by.items():
            r = other[k]
            val = sc.ev[0]["val"]
            if "dead" in r or any("err" in o for o in r["out"]):
                ctx.violation(f"{sc.label}, read in another process: {r}"[:1500])
                continue
            wrong = [s for s, x in r["out"][1]["ok"].items() if sc.token(s, x) != val.get(s, 0) and not inputs.exactly(x, sc.t[s][val.get(s, 0)])]
            compared += len(names)
            if wrong:
                ctx.violation(f"{sc.label}, read in another process: {wrong} differ")
        ctx.sample({"history": scripts[0].describe()[:20]})
        ctx.sample({"file": hp["h0"][0]})
    ctx.add(**mc)
    ctx.add(traces_validated_against_impl=len(scripts) + n, values_compared=compared)
