"""Histories of sessions, generated by TLC, replayed on the package, judged by TLC (CoffeTrace)."""
import concurrent.futures as cf
import json

import pool
import tlc
import values

ALL_KINDS = ["background", "power", "integral", "biases", "cf1", "mp1", "cfb", "mpb", "ampb", "acovb", "covb"]
CHEAP = ["background", "power", "integral", "biases", "cf1", "mp1", "cfb", "mpb", "covb", "acovb"]

SLOW = {"has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"}
CLASS = {"k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k", "l_max_g", "l_max_ur",
         "tol_perturb_integration", "radiation_streaming_trigger_tau_over_tau_k", "ur_fluid_trigger_tau_over_tau_k"}
_tables = None


def tables():
    global _tables
    if _tables is None:
        _tables = tlc.export("CoffeExport")
        for start in _tables["cover"].values():      # TLC writes functions over 1..n as arrays
            for s, d in start.items():
                start[s] = {int(k): x for k, x in d.items()} if isinstance(d, dict) else {i + 1: x for i, x in enumerate(d)}
    return _tables


def concrete(val, ctxname):
    """A valuation -> the list of settings that make a fresh object have it."""
    t = values.table(ctxname)
    out = []
    for s in sorted(val):
        v = val[s]
        if s == "pk":
            continue
        if s in ("k_min", "k_max"):
            if v >= 100:
                if v == 100 + val["pk"]:
                    continue
                k = t["pk"][v - 100][0]
                out.append((s, k[0] if s == "k_min" else k[-1]))
                continue
        out.append((s, t[s][v]))
    if val["pk"]:
        out.append(("pk", t["pk"][val["pk"]]))
    return out


class Script:
    """One job for the worker, and the trace events its outcomes become."""

    def __init__(self, jid, ctxname, label):
        self.id, self.ctx, self.label = jid, ctxname, label
        self.ops, self.ev = [], []
        self.cuts = None
        self.t = values.table(ctxname)

    def new(self, o, val, build=True):
        self.ops.append({"e": "new", "o": o, "set": concrete(val, self.ctx) if build else []})
        self.ev.append({"e": "new", "o": o, "val": {k: v for k, v in val.items() if v}})

    def set(self, o, s, v):
        self.ops.append({"e": "set", "o": o, "s": s, "v": self.t[s][v]})
        self.ev.append({"e": "set", "o": o, "s": s, "v": v})

    def ask(self, o, k):
        self.ops.append({"e": "ask", "o": o, "k": k})
        self.ev.append({"e": "ask", "o": o, "k": k})

    def read(self, o, r, s="h"):
        self.ops.append({"e": "read", "o": o, "r": r, "s": s})
        self.ev.append({"e": "read", "o": o})

    def delete(self, o):
        self.ops.append({"e": "del", "o": o})
        self.ev.append({"e": "del", "o": o})

    def process(self):
        """What follows runs in a fresh process (on objects of its own)."""
        self.cuts = (self.cuts or []) + [len(self.ops)]

    def job(self):
        return {"id": self.id, "ops": self.ops, **({"cuts": self.cuts} if self.cuts else {})}

    def trace(self, reply, samekind, tokens=None):
        """The recorded trace of this job: its events with their outcomes."""
        tok = tokens or values.Tokens()
        ev = []
        for e, r in zip(self.ev, reply["out"]):
            e = dict(e)
            if e["e"] == "ask":
                k = samekind.get(e["k"], e["k"])
                e["out"] = tok(k, r["ok"] if "ok" in r else "error " + r["err"])
            elif e["e"] in ("set", "try"):
                e["out"] = "ok" if "ok" in r else "refused"
            elif "err" in r:
                e["e"], e["why"] = "broken", r["err"] + ": " + r["msg"]
            ev.append(e)
        return ev

    def describe(self, upto=None):
        ops = self.ev if upto is None else self.ev[:upto + 1]
        return [{k: v for k, v in e.items() if k != "val"} if not (e["e"] == "new" and e.get("val")) else e for e in ops]


def judge(scripts, replies, samekind, nbatch=8):
    """TLC's verdicts: {script id: [(event index, why)]}, and the numbers of states and traces."""
    bad, dead = {}, []
    live = []
    for s in scripts:
        r = replies[s.id]
        if "dead" in r:
            dead.append((s, r))
        else:
            live.append(s)
    batches = [live[i::nbatch] for i in range(nbatch) if live[i::nbatch]]

    def one(batch):
        events, where = [], []
        for s in batch:
            for i, e in enumerate(s.trace(replies[s.id], samekind)):
                if e["e"] == "broken":
                    bad.setdefault(s.id, []).append((i, e["why"]))
                    break
                events.append(e)
                where.append((s.id, i))
            events.append({"e": "end"})
            where.append((None, 0))
        v, st = tlc.validate(events)
        return v, st, where

    n = states = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for v, st, where in ex.map(one, batches):
            n += v["n"]
            states += st["states"]
            for b in v["bad"]:
                sid, i = where[b["i"] - 1]
                bad.setdefault(sid, []).append((i, b["why"]))
    return bad, dead, {"events": n, "trace_states": states, "traces": len(live)}


def decide(ctx, scripts, env=None, timeout=300, nproc=8, args=()):
    """Replays scripts, judges the traces; what is rejected is replayed once more before it counts."""
    sk = tables()["samekind"]
    by = {s.id: s for s in scripts}
    rep = pool.run_jobs(ctx.build, [s.job() for s in scripts], nproc, timeout, env, args)
    bad, dead, n = judge(scripts, rep, sk)
    again = [by[i] for i in bad] + [s for s, _ in dead]
    if again:
        ctx.log(f"{len(again)} of {len(scripts)} rejected; replaying them")
        rep2 = pool.run_jobs(ctx.build, [s.job() for s in again], min(nproc, 4), timeout * 2, env, args)
        bad2, dead2, _ = judge(again, rep2, sk)
        for i, b in sorted(bad2.items()):
            s = by[i]
            k, why = b[0]
            r = rep2[i]["out"][k]
            ctx.violation(f"{s.label}: {why} at step {k} {json.dumps({x: y for x, y in s.ev[k].items() if x != 'val'})}: {str(r)[:300]}",
                          context=s.ctx, history=s.describe(k), script=s.ops[:k + 1] if len(s.ops) < 400 else None)
        for s, r in dead2:
            ctx.violation(f"{s.label}: {r['dead']} {r.get('stderr', '')[-300:]}", context=s.ctx, history=s.describe())
    ctx.add(**n)
    return rep


def fresh(s, val, kinds, o=900):
    s.new(o, val)
    for k in kinds:
        s.ask(o, k)
    s.delete(o)


def cover_scripts(ctxname, start, kinds, settings=None, back=lambda v: True, vmax=9, prefix=""):
    """For every setting and value: results; set; the same results; set back; the same results."""
    T = tables()
    out = []
    base = T["start"][start]
    for s in sorted(T["settings"]):
        if settings is not None and s not in settings:
            continue
        for v in range(1, min(vmax, T["settings"][s]["max"]) + 1):
            if start == "pk" and s == "pk" and v == 1:
                continue
            c = T["cover"][start][s][v]
            sc = Script(f"{prefix}{ctxname}/{start}/{s}={v}", ctxname, f"setting {s} ({ctxname})")
            sc.new(1, base)
            for k in kinds:
                sc.ask(1, k)
            sc.set(1, s, v)
            for k in kinds:
                sc.ask(1, k)
            fresh(sc, c["once"], kinds)
            if back(v) and s not in SLOW:
                w = 3 - v if s == "pk" else 0
                sc.set(1, s, w)
                for k in reversed(kinds):
                    sc.ask(1, k)
                if c["back"] != base:
                    fresh(sc, c["back"], kinds)
            out.append(sc)
    return out


def histories(n, seed, depth=41, objects=2):
    out = tlc.tlc("CoffeHistory", ("-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"),
                  cfg="CoffeHistory" if objects == 2 else "CoffeHistory1")
    return tlc.printed(out, "HISTORY")


def history_script(h, i, ctxname, label, reads=True, asks=True, only=None, compare=True, skip=()):
    """A generated history as a script; after each result, the same from a fresh object."""
    s = Script(f"{label}{ctxname}/{i}", ctxname, f"{label} history {i} ({ctxname})")
    for e in h:
        o = e["o"]
        if only is not None and o != only:
            continue
        if e["e"] == "new":
            s.new(o, e["val"])
        elif e["e"] == "set":
            s.set(o, e["s"], e["v"])
        elif e["e"] == "del":
            s.delete(o)
        elif e["e"] == "read":
            if reads:
                s.read(o, e["r"], e["s"])
        elif e["e"] == "ask":
            s.ask(o, e["k"])
            if compare and e["k"] not in skip:
                sk = tables()["samekind"]
                fresh(s, e["val"], [sk.get(e["k"], e["k"])])
    return s


def p01(ctx):
    """Results never go stale."""
    ctx.log("model checking the design")
    st = tlc.model_check("CoffeSession")
    ctx.add(**st)
    scripts = []
    kinds = ALL_KINDS
    never, once = (lambda v: False), (lambda v: v == 1)
    scripts += cover_scripts("plain", "none", kinds, back=once)
    # computing one covariance discards the other, which could hide that it was stale
    scripts += cover_scripts("bins", "none", ["acovb"], back=never, vmax=ctx.q(1, 2), prefix="acov/",
                             settings=set(tables()["settings"]) - SLOW - CLASS)
    if ctx.thorough:
        for k in ALL_KINDS:
            scripts += cover_scripts("plain", "none", [k], back=never, prefix=k + "/")
    for c in ("flat", "bins", "pk"):
        names = None
        if not ctx.thorough:        # the divergent terms take seconds; the precisions of CLASS act on the spectrum only
            names = set(tables()["settings"]) - SLOW
            if c != "pk":
                names -= CLASS
        scripts += cover_scripts(c, "pk" if c == "pk" else "none", kinds, settings=names, back=ctx.q(never, once), vmax=ctx.q(1, 2))
    if ctx.thorough:
        scripts += cover_scripts("div", "none", kinds, back=never, vmax=1)
    hs = histories(ctx.q(24, 1200), ctx.seed)
    for i, h in enumerate(hs):
        scripts.append(history_script(h, i, ("plain", "flat", "bins", "pk")[i % 4], "random", reads=True))
    ctx.log(f"{len(scripts)} histories")
    scripts.sort(key=lambda s: not any(x in s.id for x in SLOW))
    decide(ctx, scripts)
    ctx.log("done")
    ctx.add(traces_validated_against_impl=len(scripts))
    ctx.sample({"history": scripts[0].describe()})
    ctx.sample({"history": scripts[-1].describe()})


def observe_all(s, o, names, kinds):
    s.ops.append({"e": "getall", "o": o, "names": names})
    s.ev.append({"e": "ask", "o": o, "k": "settings"})
    for k in kinds:
        s.ask(o, k)


SETTABLE = None


def settable():
    return sorted(s for s in tables()["settings"] if s != "pk") + [
        "omega_cdm", "omega_nu", "omega_de", "big_omega_m", "big_omega_cdm", "big_omega_baryon", "big_omega_nu", "big_omega_gamma", "big_omega_de"]


def p02(ctx):
    """Reading never changes anything: a history with all its reads and requests, and the same
    settings without them, end in the same object; and requests are answered alike in any order."""
    ctx.add(**tlc.model_check("CoffeSession"))
    names = settable()
    scripts = []
    kinds = CHEAP
    hs = histories(ctx.q(70, 1500), ctx.seed * 7 + 1, objects=1)
    import random
    rnd = random.Random(ctx.seed)
    for i, h in enumerate(hs):
        c = ("plain", "flat", "bins", "pk")[i % 4]
        s = history_script(h, i, c, "reads", compare=False)
        order = list(kinds)
        rnd.shuffle(order)
        observe_all(s, 1, names, order)
        # the same settings, with nothing read or asked in between
        last = None
        for e in h:
            if e["e"] == "new":
                s.new(2, e["val"])
                last = e
            elif e["e"] == "set":
                s.set(2, e["s"], e["v"])
        rnd.shuffle(order)
        observe_all(s, 2, names, order)
        scripts.append(s)
    # every kind of result and every read, before every kind of result, on one object
    T = tables()
    reads = ["all", "parameters", "file", "biases", "repr"]
    for c in ("plain", "flat", "bins", "pk"):
        st = T["start"]["pk" if c == "pk" else "none"]
        for first in ALL_KINDS + ["cfr", "mpr", "covr"] + reads:
            s = Script(f"first/{c}/{first}", c, f"{first} first ({c})")
            for o, pre in ((1, []), (2, [first])):
                s.new(o, st)
                for k in pre:
                    if k in reads:
                        s.read(o, k)
                    else:
                        s.ask(o, k)
                if pre and first in reads:
                    s.ask(o, "covb")
                    s.read(o, first)
                observe_all(s, o, names, ALL_KINDS if o == 1 else list(reversed(ALL_KINDS)))
            scripts.append(s)
    if ctx.thorough:
        for first in reads + ["cf1", "covb", "ampb"]:
            s = Script(f"first/div/{first}", "div", f"{first} first (div)")
            for o, pre in ((1, []), (2, [first])):
                s.new(o, T["start"]["none"])
                s.ask(o, "background")
                for k in pre:
                    s.read(o, k) if k in reads else s.ask(o, k)
                observe_all(s, o, names, CHEAP)
            scripts.append(s)
    ctx.log(f"{len(scripts)} histories")
    decide(ctx, scripts)
    ctx.add(traces_validated_against_impl=len(scripts))
    ctx.sample({"history": scripts[0].describe()})
    ctx.sample({"history": scripts[-1].describe()})


def p07(ctx):
    """Objects do not share state: an interleaving on two objects, each compared with itself alone in a process of its own."""
    ctx.add(**tlc.model_check("CoffeSession"))
    names = settable()
    hs = histories(ctx.q(36, 1500), ctx.seed * 11 + 2, objects=2)
    scripts = []
    for i, h in enumerate(hs):
        c = ("plain", "bins", "flat", "pk")[i % 4]
        s = Script(f"objects{c}/{i}", c, f"objects history {i} ({c})")
        s.process()
        t = history_script(h, i, c, "objects", compare=False)
        s.ops, s.ev = t.ops, t.ev
        live = {}
        for e in h:
            if e["e"] == "new":
                live[e["o"]] = True
            elif e["e"] == "del":
                live.pop(e["o"], None)
        for o in sorted(live):
            observe_all(s, o, names, CHEAP)
        # each object's own operations alone, judged as other objects
        for o in (1, 2):
            s.process()
            for e in h:
                if e["o"] != o:
                    continue
                if e["e"] == "new":
                    s.new(10 + o, e["val"])
                elif e["e"] == "set":
                    s.set(10 + o, e["s"], e["v"])
                elif e["e"] == "ask":
                    s.ask(10 + o, e["k"])
                elif e["e"] == "del":
                    s.delete(10 + o)
            if o in live:
                observe_all(s, 10 + o, names, CHEAP)
        if s.cuts[-1] == len(s.ops):
            s.cuts.pop()
        scripts.append(s)
    # two objects that differ in one setting, in both orders: what comes first in a process is alone
    T = tables()
    kinds = ["background", "power", "integral", "biases", "cf1", "mpb", "acovb", "covb"]
    for s_ in sorted(set(T["settings"]) - SLOW - CLASS - {"verbose"}):
        for v in range(1, min(ctx.q(1, 2), T["settings"][s_]["max"]) + 1):
            c = ("plain", "bins")[len(scripts) % 2]
            other = T["cover"]["none"][s_][v]["once"]
            s = Script(f"differ/{s_}={v}", c, f"two objects that differ in {s_} ({c})")
            for part in (0, 1):
                s.process()
                for o in ((1, 2), (3, 4))[part]:
                    s.new(o, T["start"]["none"] if o in (2, 3) else other)
                    for k in kinds:
                        s.ask(o, k)
            scripts.append(s)
    # one object computes a kind, another sets or computes, the first goes on; and destruction in every order
    k = 0
    for a in ALL_KINDS:
        for b in ALL_KINDS:
            c = ("plain", "bins")[k // 2 % 2]
            k += 1
            if not ctx.thorough and k % 2 == 0:
                continue
            s = Script(f"pair/{a}/{b}", c, f"two objects: {a} and {b} ({c})")
            s.process()
            s.new(1, T["start"]["none"])
            s.new(2, T["start"]["pk"])
            s.ask(1, a)
            s.set(2, ("h", "sep", "galaxy_bias1", "mu", "l")[k % 5], 1)
            s.ask(2, b)
            s.ask(1, a)
            s.ask(1, b)
            s.delete(2 if k % 3 else 1)
            o = 1 if k % 3 else 2
            observe_all(s, o, names, CHEAP)
            # alone
            s.process()
            if o == 1:
                s.new(3, T["start"]["none"])
            else:
                s.new(3, T["start"]["pk"])
                s.set(3, ("h", "sep", "galaxy_bias1", "mu", "l")[k % 5], 1)
            observe_all(s, 3, names, CHEAP)
            scripts.append(s)
    ctx.log(f"{len(scripts)} histories")
    decide(ctx, scripts)
    ctx.add(traces_validated_against_impl=len(scripts))
    ctx.sample({"history": scripts[0].describe()})
    ctx.sample({"history": scripts[-1].describe()})


WIDE = {
    "plain": [("sep", [12.0 + 7.3 * i for i in range(17)]), ("mu", [-0.8, -0.1, 0.25, 0.9]), ("l", [0, 1, 2, 3, 4]), ("z_mean", [0.7, 1.0, 1.3]),
              ("deltaz", [0.1, 0.2, 0.3]), ("number_density1", [1e-3, 5e-4, 2e-4]), ("number_density2", [1e-3, 8e-4, 1e-4]),
              ("pixelsize", [10.0, 7.0, 5.0]), ("fsky", [1.0, 0.4, 0.2]), ("z_min", [0.9, 0.5, 1.1]), ("z_max", [1.1, 0.9, 1.4])],
}
WIDE["flat"] = WIDE["plain"]
WIDE["bins"] = WIDE["plain"] + [("covariance_integration_method", "fftlog"), ("covariance_interpolation_method", "bicubic"), ("l", [0, 2, 4])]
# with lensing, every point costs a line-of-sight integral
WIDE["plain"] = [("sep", [12.0, 30.0, 41.0, 55.0, 77.0]), ("l", [0, 1, 2]), ("z_mean", [0.7, 1.3]), ("integration_sampling", 400)] + \
    [(s, v[:2]) for s, v in WIDE["plain"] if s in ("deltaz", "number_density1", "number_density2", "pixelsize", "fsky", "z_min", "z_max", "mu")]
WIDE["flat"] = WIDE["flat"] + [("integration_sampling", 400), ("l", [0, 2, 4])]
WIDE["pk"] = [("sep", [20.0, 50.0, 90.0]), ("l", [0, 2])]
WIDE["div"] = [("has_lensing", False), ("sep", [15.0 + 9 * i for i in range(9)])]


def p21(ctx):
    """Results do not depend on the number of threads, or on the run."""
    ctx.add(**tlc.model_check("CoffeThreads", timeout=300))
    for bad in ("CoffeThreadsShared", "CoffeThreadsUnlocked"):     # the model tells the wrong designs apart
        if "Deterministic is violated" not in tlc.tlc("CoffeThreads", ("-workers", "1"), cfg=bad, ok=(0, 12)):
            raise tlc.ModelFailure(bad)
    T = tables()
    kinds = ALL_KINDS
    runs = []
    threads = ctx.q([1, 2, 3, 8, 8], [1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 16])
    ctxs = ctx.q(["plain", "flat", "bins", "div"], ["plain", "flat", "bins", "pk", "div"])
    for c in ctxs:
        start = T["start"]["pk" if c == "pk" else "none"]
        parts = []
        for i, n in enumerate(threads if c != "div" else threads[-2:] + [2]):
            s = Script(f"threads/{c}/{i}", c, f"{n} threads ({c})")
            s.new(i, start)
            for name, v in WIDE[c]:
                s.ops.append({"e": "set", "o": i, "s": name, "v": v})
                s.ev.append({"e": "read", "o": i})
            for k in kinds:
                s.ask(i, k)
            for k in ("cfr", "mpr", "covr") if c != "div" else ():
                s.ask(i, k)
            s.ask(i, "cf1")
            parts.append((n, s))
        runs.append((c, parts))
    sk = T["samekind"]

    def go(parts):
        evs = []
        tok = values.Tokens(1e-9, 1e-13)
        for n, s in parts:
            rep = pool.run_jobs(ctx.build, [s.job()], 1, 600, {"OMP_NUM_THREADS": str(n), "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive"})[s.id]
            if "dead" in rep:
                return None, f"{s.label}: {rep['dead']}"
            e = s.trace(rep, sk, tok)
            evs += [(s, i, x, rep["out"][i]) for i, x in enumerate(e)]
        v, st = tlc.validate([x for _, _, x, _ in evs] + [{"e": "end"}])
        ctx.add(trace_states=st["states"])
        return [(evs[b["i"] - 1], b["why"]) for b in v["bad"]], None

    n = 0
    for c, parts in runs:
        ctx.log(c)
        bad, dead = go(parts)
        n += len(parts)
        if bad or dead:
            bad2, dead2 = go(parts)
            if dead and dead2:
                ctx.violation(dead2)
            # a race need not repeat in the same place
            if bad and bad2:
                (s, i, x, r), why = bad2[0]
                ctx.violation(f"{s.label}: {why} at {x}: {str(r)[:300]}", history=s.describe(), other=str(bad[0])[:500])
            elif bad:
                for _ in range(3):
                    bad3, _d = go(parts)
                    if bad3:
                        (s, i, x, r), why = bad3[0]
                        ctx.violation(f"{s.label}: {why} (not in every run) at {x}: {str(r)[:300]}", history=s.describe())
                        break
    ctx.add(traces_validated_against_impl=n)
    ctx.add(threads=str(threads))
    ctx.sample({"history": runs[0][1][0][1].describe()})
