"""P03 and P04: values of every class of every domain of the specification, offered to the package."""
import math
import random

import sessions as S
import tlc
import values

NAN, INF, NINF = {"$": "nan"}, {"$": "inf"}, {"$": "-inf"}


def num(x):
    f = float(x)
    return int(f) if f == int(f) and abs(f) < 2 ** 53 and "." not in str(x) and "e" not in str(x) else f


def below(lo):
    return lo - max(abs(lo) * 1e-6, 1e-9)


def above(hi):
    return hi + max(abs(hi) * 1e-6, 1e-9)


def point(d, c, t0, t1, which=0):
    """A value of class c of a numeric domain."""
    lo, hi = float(d["lo"]), float(d["hi"])
    integer = d["type"] in ("int", "even", "intlist", "pops")
    if c == "below":
        return (int(lo) - (1 if which == 0 else 7)) if integer else (below(lo) if which == 0 else lo - 3.0)
    if c == "above":
        return (int(hi) + 1) if integer else (above(hi) if which == 0 else hi * 1.7 + 1)
    if c == "lo":
        return int(lo) if integer else lo
    if c == "hi":
        return int(hi) if integer else hi
    if c in ("inside", "inside2"):
        return t0 if c == "inside" else t1
    if c == "fractional":
        return 2.5
    if c == "odd":
        return 33
    return {"nan": NAN, "inf": INF, "-inf": NINF, "string": "abc", "none": None, "list": [t0]}[c]


def setting_value(s, d, c, t, which=0):
    """A concrete value of class c for a setting; t its token values."""
    ty = d["type"]
    t1, t2 = t[min(1, len(t) - 1)], t[min(2, len(t) - 1)]
    if ty in ("num", "float", "int", "even"):
        return point(d, c, t1, t2, which)
    if ty in ("numlist", "intlist", "pops"):
        n = 4 if ty == "pops" else 2
        good = t[0][0]
        if c in ("inside", "inside2"):
            return t1 if c == "inside" else t2
        if c == "scalar":
            return good
        if c == "none":
            return None
        if c == "wronglen":
            return [1, 2, 1] if which == 0 else [1, 2, 1, 2, 1]
        if c == "stringlist":
            return ["abc"] + [good] * (n - 1)
        if c == "lastbad":
            return [good] * (n - 1) + [NAN if ty == "numlist" else -3]
        if c == "fractional":
            return [1.5] + [good] * (n - 1)
        return [point(d, c, good, good, which)] + [good] * (n - 1)
    if ty == "enum":
        return {"name": t[1], "name2": t[0], "number": int(d["hiK"]), "badname": "foo" if which == 0 else "", "badnumber": 99, "negative": -1,
                "none": None, "list": [t[0]]}[c]
    if ty == "enum4":
        return {"name": "linear", "name2": "linear_class", "number": 0, "badname": "foo", "badnumber": 4, "negative": -1, "none": None, "list": ["linear"]}[c]
    if ty == "bool":
        return c == "true"
    if ty == "any":
        return {"inside": t[1], "inside2": t[2], "string": "abc", "none": None, "list": [1]}[c]
    if ty == "table":
        x, y = t1 if c != "inside2" else t2
        x, y = list(x), list(y)
        if c in ("inside", "inside2"):
            pass
        elif c == "short":
            x, y = x[:4], y[:4]
        elif c == "unsorted":
            i = 2 if which == 0 else len(x) - 2
            x[i], x[i + 1] = x[i + 1], x[i]
        elif c == "repeated":
            i = 2 if which == 0 else len(x) - 1
            x[i] = x[i - 1]
        elif c == "nanx":
            x[-1 if which else 3] = NAN
        elif c == "nany":
            y[-1 if which else 3] = NAN
        elif c == "infy":
            y[1] = INF
        elif c == "mismatched":
            y = y[:-1] if which == 0 else y + [1.0]
        elif c == "scalar":
            return [1.0, 1.0]
        elif c == "belowx":
            x[0] = -0.1 if s != "pk" else x[0] / 2
        elif c == "abovex":
            x[-1] = 15.5 if s != "pk" else x[-1] * 2
        return [x, y]
    raise KeyError((s, ty, c))


def token_of(s, d, c):
    """The abstract value an accepted value of class c is (tokens of its own for the edges)."""
    ty = d["type"]
    if ty == "bool":
        return None
    return {"inside": 1, "inside2": 2, "name": 1, "name2": 0}.get(c)


class InputScript(S.Script):
    def tryset(self, o, s, c, v, tok):
        self.ops.append({"e": "set", "o": o, "s": s, "v": v})
        self.ev.append({"e": "try", "o": o, "s": s, "c": c, "v": tok})

    def evaluate(self, o, m, a, c, kw):
        one = {"a": list(kw.values())} if set(kw) == {"z"} else {"kw": kw}     # the functions of redshift take it by position
        self.ops.append({"e": "call", "o": o, "m": m, **one})
        self.ev.append({"e": "eval", "o": o, "m": m, "a": a, "c": c})

    def must(self, op, want):
        self.ops.append(op)
        self.ev.append({"e": "must", "o": op["o"], "want": want})

    def trace(self, reply, samekind, tokens=None):
        tok = tokens or values.Tokens()
        ev = []
        for e, op, r in zip(self.ev, self.ops, reply["out"]):
            e = dict(e)
            if e["e"] == "eval":
                x = r.get("ok")
                e["out"] = "refused" if "err" in r else ("ok" if isinstance(x, (int, float)) and math.isfinite(x) else "notfinite")
            elif e["e"] == "must":
                e["out"] = ("refused" if e["want"] != "attribute" else "attribute") if "err" in r else "ok"
            elif e["e"] == "get":
                e["out"] = 0 if "ok" in r and exactly(r["ok"], self.expected[e["x"]]) else 1
            elif e["e"] == "ask":
                k = samekind.get(e["k"], e["k"])
                e["out"] = tok(k, r["ok"] if "ok" in r else "error " + r["err"])
            elif e["e"] in ("set", "try"):
                e["out"] = "ok" if "ok" in r else "refused"
            elif "err" in r:
                e["e"], e["why"] = "broken", r["err"] + ": " + r["msg"]
            ev.append(e)
        return ev


BASE = {"comoving_distance": {"z": 1.0}, "power_spectrum": {"k": 0.1, "z": 0.5}, "cross_spectrum": {"k": 0.1, "z1": 0.5, "z2": 0.7},
        "integral": {"r": 20.0, "n": 2, "l": 0}, "maximum_separation": {"z_mean": 1.0, "deltaz": 0.1},
        "compute_corrfunc": {"z": 1.0, "r": 40.0, "mu": 0.3}, "compute_multipole": {"z": 1.0, "r": 40.0, "l": 2}}
INSIDE = {"z": (0.7, 1.3), "z1": (0.2, 1.4), "z2": (0.0, 2.0), "k": (0.02, 1), "r": (13.0, 90), "n": (2, 0), "l": (0, 2), "mu": (0.9, -0.2),
          "z_mean": (0.5, 2.0), "deltaz": (0.05, 0.2)}


def p03(ctx):
    T = S.tables()
    scripts = []
    ctxs = ctx.q(["plain", "pk"], ["plain", "flat", "bins", "pk"])
    rnd = random.Random(ctx.seed)
    offered = 0
    for c0 in ctxs:
        start = T["start"]["pk" if c0 == "pk" else "none"]
        table = values.table(c0)
        names = S.settable()
        for s in sorted(T["settings"]):
            spec = T["settings"][s]
            d = spec["domain"]
            t = table[s] if s != "pk" else [values.pk_table(1), values.pk_table(1), values.pk_table(2)]
            sc = InputScript(f"refuse/{c0}/{s}", c0, f"values for {s} ({c0})")
            sc.new(1, start)
            S.observe_all(sc, 1, names, ["background", "covb", "cfb"] if rnd.random() < 0.5 else [])
            refused = [c for c, ok in sorted(spec["classes"].items()) if not ok]
            for c in refused:
                for which in (0, 1):
                    v = setting_value(s, d, c, t, which)
                    if v is None and c != "none":
                        continue
                    sc.tryset(1, s, c, v, 0)
                    S.observe_all(sc, 1, names, [])
                    offered += 1
            if refused:
                # results as if nothing had been offered, also after everything is computed anew
                S.observe_all(sc, 1, names, S.CHEAP)
                sc.set(1, "mu", 1)
                sc.set(1, "omega_gamma", 1)
                kinds = [k for k in S.CHEAP if k not in ("background",)] if ctx.thorough else ["power", "integral", "mp1", "cfb", "mpb", "covb"]
                for k in kinds:
                    sc.ask(1, k)
                c1 = S.tables()["cover"]["pk" if c0 == "pk" else "none"]["omega_gamma"][1]["once"]
                S.fresh(sc, {**c1, "mu": 1}, kinds)
            scripts.append(sc)
            # accepted values, each on an object of its own
            acc = InputScript(f"accept/{c0}/{s}", c0, f"accepted values for {s} ({c0})")
            for i, c in enumerate(c for c, ok in sorted(spec["classes"].items()) if ok):
                acc.new(i, start)
                acc.tryset(i, s, c, setting_value(s, d, c, t), {"inside": 1, "inside2": 2}.get(c, 50 + i))
                acc.delete(i)
                offered += 1
            scripts.append(acc)
    # points of evaluation
    edges = []
    for m in sorted(T["eval"]):
        for c0 in ctxs[:1]:
            start = T["start"]["none"]
            sc = InputScript(f"points/{c0}/{m}", c0, f"arguments of {m} ({c0})")
            sc.new(1, start)
            S.observe_all(sc, 1, S.settable(), ["cf1", "mp1", "integral", "biases", "power"])
            for a, x in sorted(T["eval"][m].items()):
                d = x["domain"]
                base = BASE.get(m, {"z": 1.0})
                ins = INSIDE[a]
                if m == "compute_multipole" and a == "l":
                    ins = (4, 3)
                for c in sorted(x["classes"]):
                    if m == "integral" and a in ("n", "l") and c in ("hi", "lo", "above", "inside2"):
                        continue          # which pairs exist is decided below
                    for which in (0, 1):
                        v = point(d, c, ins[0], ins[1], which)
                        sc.evaluate(1, m, a, c, {**base, a: v})
                        offered += 1
            if m == "integral":
                for n in range(-1, 7):
                    for l in range(-1, 7):
                        have = (n, l) in {(0, 0), (0, 2), (0, 4), (1, 1), (1, 3), (2, 0), (2, 2), (3, 1)}
                        sc.must({"e": "call", "o": 1, "m": m, "kw": {"r": 20.0, "n": n, "l": l}}, "ok" if have else "refused")
            if m in ("compute_corrfunc", "compute_multipole"):
                for kw in ({"z": 0.1, "r": 900.0, "mu": 1.0}, {"z": 0.05, "r": 500.0, "mu": -1.0}, {"z": 0.001, "r": 30.0, "mu": 1.0}):
                    if m == "compute_multipole":
                        kw = {"z": kw["z"], "r": kw["r"], "l": 0}
                    sc.must({"e": "call", "o": 1, "m": m, "kw": kw}, "refused")
                # a point where the biases end
                kw = {"z": 6.999, "r": 100.0, "mu": 1.0} if m == "compute_corrfunc" else {"z": 6.999, "r": 100.0, "l": 0}
                sc.must({"e": "call", "o": 1, "m": m, "kw": kw}, "refused")
            S.observe_all(sc, 1, S.settable(), ["cf1", "mp1", "integral", "biases", "power"])
            scripts.append(sc)
    # bulk requests which make no sense, unknown names, read-only settings
    sc = InputScript("bulk", "bins", "requests that must be refused")
    sc.new(1, T["start"]["none"])
    S.observe_all(sc, 1, S.settable(), S.ALL_KINDS)
    for n in ("omega_de", "omega_nu", "has_class", "has_cuba", "big_omega_m", "parameters", "no_such_thing"):
        sc.must({"e": "set", "o": 1, "s": n, "v": 0.5}, "refused")
    for kw in ({"no_such_thing": 1}, {"h": 0.7, "no_such_thing": 1}, {"sep": [10.0], "mu_": [0.1]}):
        sc.must({"e": "setall", "o": 1, "kw": kw}, "refused")
    S.observe_all(sc, 1, S.settable(), S.ALL_KINDS)
    for s, v, ms in (("z_mean", [0.7], ["compute_covariance_bulk"]),
                     ("deltaz", [0.1, 0.1, 0.1], ["compute_covariance_bulk", "compute_average_covariance_bulk"]),
                     ("number_density1", [1e-3], ["compute_covariance_bulk", "compute_average_covariance_bulk"]),
                     ("number_density2", [1e-3], ["compute_covariance_bulk", "compute_average_covariance_bulk"]),
                     ("pixelsize", [1.0], ["compute_covariance_bulk", "compute_average_covariance_bulk"]),
                     ("fsky", [1.0], ["compute_covariance_bulk", "compute_average_covariance_bulk"]),
                     ("z_min", [0.5], ["compute_average_multipoles_bulk", "compute_average_covariance_bulk"]),
                     ("z_max", [0.7, 1.2, 1.4], ["compute_average_multipoles_bulk", "compute_average_covariance_bulk"]),
                     ("z_mean", [6.9999, 1.0], ["compute_corrfunc_bulk", "compute_multipoles_bulk"]),
                     ("z_mean", [0.0, 1.0], ["compute_corrfunc_bulk", "compute_multipoles_bulk"]),
                     ("deltaz", [0.2, 2.0], ["compute_covariance_bulk"]),
                     ("sep", [20.0, 9000.0], ["compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk"]),
                     ("z_min", [0.0, 0.9], ["compute_average_multipoles_bulk"]),
                     ("z_max", [0.7, 9.9], ["compute_average_multipoles_bulk"]),
                     ("sep", [], ["compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk", "compute_covariance_bulk"]),
                     ("mu", [], ["compute_corrfunc_bulk"]), ("l", [], ["compute_multipoles_bulk", "compute_average_multipoles_bulk"]),
                     ("z_mean", [], ["compute_corrfunc_bulk", "compute_multipoles_bulk"])):
        base = values.table("bins")[s][0]
        sc.must({"e": "set", "o": 1, "s": s, "v": v}, "ok")
        for m in ms:
            sc.must({"e": "call", "o": 1, "m": m}, "refused")
        sc.must({"e": "set", "o": 1, "s": s, "v": base}, "ok")
    sc.must({"e": "call", "o": 1, "m": "reset_contributions"}, "ok")
    for m in ("compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk", "compute_covariance_bulk", "compute_average_covariance_bulk"):
        sc.must({"e": "call", "o": 1, "m": m}, "refused")
    for s in sorted(x for x in T["settings"] if x.startswith("has_") and x in values.V and "flatsky" not in x and x not in (
            "has_binned_covariance", "has_only_cross_correlations")):
        v = values.table("bins")[s][0]
        sc.must({"e": "set", "o": 1, "s": s, "v": v}, "ok")
    S.observe_all(sc, 1, S.settable(), S.ALL_KINDS)
    scripts.append(sc)
    ctx.log(f"{len(scripts)} scripts, {offered} values")
    S.decide(ctx, scripts)
    ctx.add(traces_validated_against_impl=len(scripts), values_offered=offered)
    ctx.add(**tlc.model_check("CoffeSession"))
    ctx.sample({"script": scripts[0].describe()[:12]})
    ctx.sample({"script": scripts[-1].describe()[:12]})


def exactly(a, b):
    """Equality without tolerance (for what is read back)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(exactly(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return a == b


def nearby(rnd, v):
    """A number a little (sometimes very little) away from v."""
    u = rnd.choice([1e-15, 1e-13, 1e-10, 1e-7, 1e-4, 1e-2, 0.1]) * rnd.choice([-1, 1]) * (1 + rnd.random())
    w = v * (1 + u) if v else abs(u)
    return w if w != v else math.nextafter(v, math.inf)


def random_values(rnd, ctxname):
    """Concrete values for the tokens of every setting, different for every script."""
    T = S.tables()["settings"]
    base = values.table(ctxname)
    out = {}
    for s, x in T.items():
        d, t = x["domain"], base[s]
        ty = d["type"]
        if ty in ("bool", "enum", "enum4") or s == "pk":
            out[s] = list(t)
            continue

        def inside(v):
            if s in ("omega_m", "omega_baryon", "omega_gamma"):
                return 0 < v < 0.5
            if not d["lo"]:
                return True
            lo, hi = float(d["lo"]), float(d["hi"])
            return (v > lo or (v == lo and d["loK"] == "closed")) and (v < hi or (v == hi and d["hiK"] == "closed"))

        def one(v):
            if ty in ("int", "even", "intlist", "pops") or isinstance(v, int):
                step = 2 if ty == "even" else 1
                for _ in range(20):
                    w = v + step * rnd.randint(-3, 3)
                    if w != v and inside(w):
                        return w
                return v
            for _ in range(20):
                w = nearby(rnd, v)
                if inside(w):
                    return w
            return v

        vals = []
        for k in range(3):
            src = t[min(k, len(t) - 1)]
            for _ in range(50):
                if ty == "table":
                    # the values are read back through the spline: differ by more than its rounding
                    v = [list(src[0]), [b + rnd.choice([-1, 1]) * rnd.choice([1e-9, 1e-6, 1e-3, 0.1]) * (1 + rnd.random()) for b in src[1]]]
                elif isinstance(src, list):
                    v = [one(a) for a in (src if k != 2 or not vals else vals[-1])]
                    if k == 1 and ty in ("numlist", "intlist") and rnd.random() < 0.5:
                        v = v + [one(src[0])]
                else:
                    v = one(vals[-1] if vals and rnd.random() < 0.6 else src)
                if not any(exactly(v, w) for w in vals):
                    break
            vals.append(v)
        out[s] = vals
    return out


class GetScript(InputScript):
    def __init__(self, jid, ctxname, label, table):
        super().__init__(jid, ctxname, label)
        self.t = table

    def new(self, o, val, how="set"):
        kv = []
        for s in sorted(val):
            v = val[s]
            if s == "pk" or (s in ("k_min", "k_max") and v >= 100):
                continue
            kv.append((s, self.t[s][v]))
        if how == "set":
            self.ops.append({"e": "new", "o": o, "set": kv + ([("pk", self.t["pk"][val["pk"]])] if val["pk"] else [])})
            self.ev.append({"e": "new", "o": o, "val": {k: v for k, v in val.items() if v}})
            return
        kw = {s: v for s, v in kv if "_bias" not in s}
        post = [(s, v) for s, v in kv if "_bias" in s]
        import random as _r
        keys = list(kw)
        _r.Random(self.id).shuffle(keys)
        kw = {k: kw[k] for k in keys}
        if how == "kw":
            self.ops.append({"e": "new", "o": o, "kw": kw, "set": post})
        else:
            self.ops.append({"e": "new", "o": o, "set": post})
            self.ev.append({"e": "read", "o": o})
            self.ops.append({"e": "setall", "o": o, "kw": kw})
        self.ev.append({"e": "new", "o": o, "val": {k: v for k, v in val.items() if v}})

    def gets(self, o, names):
        self.ops.append({"e": "getall", "o": o, "names": names})
        self.ev.append({"e": "gets", "o": o})

    def trace(self, reply, samekind, tokens=None):
        ev = []
        for e, op, r in zip(self.ev, self.ops, reply["out"]):
            e = dict(e)
            if e["e"] == "gets" and "ok" in r:
                e["out"] = {s: self.token(s, x) for s, x in r["ok"].items()}
            elif e["e"] == "set":
                e["out"] = "ok" if "ok" in r else "refused"
            elif "err" in r:
                e["e"], e["why"] = "broken", r["err"] + ": " + r["msg"]
            ev.append(e)
        return ev

    def token(self, s, x):
        for i, v in enumerate(self.t[s]):
            if v is not None and (exactly(x, v) if "_bias" not in s else
                                  exactly(x[0], v[0]) and values.same(list(x[1]), list(v[1]), 1e-12, 1e-12)):
                return i
        if s in ("k_min", "k_max"):
            for i, v in enumerate(self.t["pk"]):
                if v and x == (v[0][0] if s == "k_min" else v[0][-1]):
                    return 100 + i
        return 99


def p04(ctx):
    T = S.tables()
    names = sorted(s for s in T["settings"] if s != "pk")
    rnd = random.Random(ctx.seed * 13 + 5)
    scripts = []
    changes = 0
    # every setting, every value, from another value: only it changes
    for rep in range(ctx.q(2, 12)):
        for c0 in ("plain", "bins"):
            table = random_values(rnd, c0)
            sc = GetScript(f"each/{c0}/{rep}", c0, f"each setting ({c0})", table)
            start = T["start"][rnd.choice(["none", "pk"])]
            sc.new(1, start)
            sc.gets(1, names)
            order = names + names
            rnd.shuffle(order)
            for s in order:
                for v in rnd.sample(range(T["settings"][s]["max"] + 1), T["settings"][s]["max"] + 1):
                    sc.set(1, s, v)
                    sc.gets(1, names)
                    changes += 1
            scripts.append(sc)
    hs = S.histories(ctx.q(60, 1500), ctx.seed * 17 + 3, objects=2)
    for i, h in enumerate(hs):
        c0 = ("plain", "flat", "bins", "pk")[i % 4]
        sc = GetScript(f"random/{c0}/{i}", c0, f"random settings ({c0}, {i})", random_values(rnd, c0))
        if c0 == "pk":
            sc.t["pk"] = values.table("plain")["pk"]
        live, last = set(), {}
        for e in h:
            o = e["o"]
            if e["e"] == "new":
                sc.new(o, e["val"])
                live.add(o)
                sc.gets(o, names)
            elif e["e"] == "set":
                sc.set(o, e["s"], e["v"])
                for x in sorted(live):
                    sc.gets(x, names)
                changes += 1
            elif e["e"] == "del":
                sc.delete(o)
                live.discard(o)
            elif e["e"] == "ask":
                last = e["val"]
        if last:
            for o, how in ((21, "kw"), (22, "setall")):
                if any(last[s] >= 100 for s in ("k_min", "k_max")):
                    last = {**last, "pk": 0, "k_min": 0, "k_max": 0}
                sc.new(o, last, how)
                sc.gets(o, names)
        scripts.append(sc)
    ctx.log(f"{len(scripts)} scripts, {changes} changes")
    S.decide(ctx, scripts)
    ctx.add(traces_validated_against_impl=len(scripts), changes=changes)
    ctx.add(**tlc.model_check("CoffeSession"))
    ctx.sample({"script": scripts[0].describe()[:12]})
    ctx.sample({"script": scripts[-1].describe()[:12]})
