"""P05: what the universe consists of, on histories of CoffeBudget."""
import math
import random

import pool
import sums
import theory
import tlc

SEEN = ["omega_m", "omega_baryon", "omega_cdm", "omega_gamma", "omega_nu", "omega_de", "h", "m_ncdm"]
BIG = ["m", "baryon", "cdm", "gamma", "nu", "de"]


class Units:
    """Shares of the specification as numbers: a whole is 1, h is one or two of a unit, and the mass that makes the shares."""

    def __init__(self, whole, h):
        self.whole, self.h = whole, h

    def value(self, s, v):
        if s == "h":
            return self.h * v
        if s == "m_ncdm":
            return v * 4 / self.whole * 93.14 * self.h * self.h
        return v / self.whole


def behaviours(n, depth, whole, borderline, seed):
    cfg = (tlc.SPEC / "CoffeBudgetHistory.cfg").read_text()
    cfg = cfg.replace("Whole = 16", f"Whole = {whole}").replace("Depth = 40", f"Depth = {depth}").replace("Borderline = TRUE", f"Borderline = {str(borderline).upper()}")
    if borderline:          # shares that are exact in binary: the limit itself is decided
        cfg = cfg.replace("{0, 1, 2, 3}", "{0}")
    out = tlc.tlc("CoffeBudgetHistory", ("-simulate", f"num={n}", "-depth", str(depth + 1), "-seed", str(seed), "-workers", "1"), cfgtext=cfg)
    return tlc.printed(out, "HISTORY")


def p05(ctx):
    mc = tlc.model_check("CoffeBudget")
    background = tlc.export("CoffeBackgroundExport")
    rnd = random.Random(ctx.seed * 101 + 5)
    jobs, plan = [], {}
    for g, (whole, borderline, n) in enumerate([(16, True, ctx.q(60, 600)), (10, False, ctx.q(60, 600)), (32, True, ctx.q(30, 300)), (15, False, ctx.q(60, 300))]):
        for i, h in enumerate(behaviours(n, ctx.q(40, 60), whole, borderline, ctx.seed * 1000 + g)):
            un = Units(whole, rnd.uniform(0.3, 0.6))
            start = [("omega_gamma", 0), ("omega_baryon", 0), ("omega_m", whole // 3), ("h", 2), ("m_ncdm", 0)]
            conv = lambda todo: [(s, un.value(s, v)) for s, v in todo]
            ops, want = [{"e": "new", "o": 1, "kw": dict(conv(start)), "set": []}], [None]
            steps = []

            def look(seen, after, asks):
                ops.append({"e": "getall", "o": 1, "names": SEEN + ["big_omega_" + x for x in BIG]})
                want.append(("all", seen, after))
                if asks:
                    z = rnd.choice([0.0, rnd.uniform(0.1, 3), 15.0])
                    ops.append({"e": "calls", "o": 1, "m": "hubble_rate", "args": [[z]]})
                    want.append(("rate", z, seen, after))

            for e in h:
                asks = rnd.random() < 0.05
                if e["e"] == "nothing":
                    continue
                if e["e"] == "set":
                    v = un.value(e["s"], e["v"])
                    if rnd.random() < 0.15 and e["s"] in ("omega_m", "omega_gamma") and v == int(v):
                        v = int(v)
                    ops.append({"e": "set", "o": 1, "s": e["s"], "v": v} if rnd.random() < 0.7 else {"e": "setall", "o": 1, "kw": {e["s"]: v}})
                    want.append(("set", e["ok"]))
                    steps.append(f"{e['s']}={v:.9g}{'' if e['ok'] else ' (refused)'}")
                elif e["e"] == "several":
                    ops.append({"e": "setall", "o": 1, "kw": dict(conv(e["todo"]))})
                    want.append(("set", True))
                    steps.append("set_parameters(" + ", ".join(f"{s}={v:.9g}" for s, v in conv(e["todo"])) + ")")
                else:
                    ops += [{"e": "del", "o": 1}, {"e": "new", "o": 1, "kw": {**dict(conv(start))}}, {"e": "setall", "o": 1, "kw": dict(conv(e["todo"]))}] \
                        if {s for s, _ in e["todo"]} & {s for s, _ in start} else \
                        [{"e": "del", "o": 1}, {"e": "new", "o": 1, "kw": dict(conv(start) + conv(e["todo"]))}]
                    want += [None] * (len(ops) - len(want))
                    steps.append("new, " + ", ".join(f"{s}={v:.9g}" for s, v in conv(e["todo"])))
                look(e["seen"], len(steps), asks)
            k = f"{g}-{i}"
            jobs.append({"id": k, "ops": ops})
            plan[k] = (un, want, steps)
    rep = pool.run_jobs(ctx.build, jobs, timeout=300)
    ctx.log(f"{len(jobs)} histories replayed")
    n = compared = 0
    for k, (un, want, steps) in plan.items():
        r = rep[k]
        if "dead" in r:
            ctx.violation(f"{r['dead']} during {steps}", replay=r)
            continue
        n += 1
        for j, (w, o) in enumerate(zip(want, r["out"])):
            if w is None:
                if "ok" not in o:
                    ctx.violation(f"after {steps}: refused: {o}")
                    break
                continue
            bad = None
            if w[0] == "set":
                if ("ok" in o) != w[1]:
                    bad = f"{'refused: ' + o['msg'] if w[1] else 'accepted'}"
                elif "err" in o and o["err"] != "ValueError":
                    bad = f"refused with {o['err']}: {o['msg']}"
                if bad:
                    i = sum(1 for x in want[:j] if x and x[0] == "all")
                    ctx.violation(f"{bad}; among the settings {'; '.join(steps)}")
                    break
                continue
            if "ok" not in o:
                ctx.violation(f"after {'; '.join(steps[:w[-1]])}: {o}")
                break
            seen = {s: un.value(s, v) for s, v in w[-2].items()}
            if w[0] == "all":
                got = o["ok"]
                for s, g in got.items():
                    compared += 1
                    v = seen[s.removeprefix("big_")]
                    if not abs(g - v) <= 1e-12 * (1 + abs(v)):
                        bad = f"{s} is {g!r}, should be {v:.12g}"
            else:
                env = {"m": seen["omega_m"], "g": seen["omega_gamma"], "de": seen["omega_de"], "w0": -1.0, "wa": 0.0, "H0": theory.H0 * seen["h"], "half": 0.5, "z": w[1]}
                v = theory.ev(background["hubble_rate"], env)
                compared += 1
                g = o["ok"][0]
                if not (sums.number(g) and abs(g - v) <= 2e-5 * v):
                    bad = f"hubble_rate({w[1]:.6g}) is {g!r}, the densities give {v:.9g}"
            if bad:
                ctx.violation(f"after {'; '.join(steps[:w[-1]])}: {bad}")
                break
        ctx.sample("; ".join(steps[:6]))
    ctx.add(states=mc["states"], transitions=mc["transitions"], traces_validated_against_impl=n, values_compared=compared)
