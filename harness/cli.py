"""P22, P23: coffe-cli, on requests, faults, command lines and histories of CoffeCli."""
import concurrent.futures as cf
import json
import math
import os
import pathlib
import random
import re
import shutil
import subprocess
import tempfile

import pool
import sums
import tlc

KINDS = ["corrfunc", "multipoles", "average_multipoles", "covariance_multipoles", "covariance_average_multipoles"]
BIASES = ["galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"]
COLUMNS = ["z", "a", "H", "conformal_H", "conformal_H_prime", "D1", "f", "comoving_distance"]
METHODS = ["scale_factor", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative", "growth_factor", "growth_rate",
           "comoving_distance"]
BULK = ["compute_corrfunc_bulk", "compute_multipoles_bulk", "compute_average_multipoles_bulk", "compute_covariance_bulk",
        "compute_average_covariance_bulk"]
FIELDS = [["z", "r", "mu", "value"], ["z", "l", "r", "value"], ["z_min", "z_max", "l", "r", "value"],
          ["z", "l1", "l2", "r1", "r2", "value"], ["r1", "r2", "l1", "l2", "z_min", "z_max", "value"]]
CONTRIBUTIONS = {"den": "has_density", "rsd": "has_rsd", "len": "has_lensing", **{c: "has_" + c for c in ("d1", "d2", "g1", "g2", "g3", "g4", "g5")}}
NOBODY = 65534
# the spectrum which is used without one: the values the program comes with
_D = json.loads(pathlib.Path(__file__).with_name("default_spectrum.json").read_text())
DEFAULT = [[x * 0.67 for x in _D["k"]], [x / 0.67 ** 3 for x in _D["p"]]]


class Box:
    """A folder where an unprivileged user runs a copy of the program; nothing else can be written by it."""

    def __init__(self, ctx):
        self.top = pathlib.Path(tempfile.mkdtemp(prefix="coffe-cli-"))
        os.chmod(self.top, 0o755)
        self.bin = self.top / "coffe-cli"
        shutil.copy(ctx.build + "/coffe-cli", self.bin)
        os.chmod(self.bin, 0o755)
        self.who = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.geteuid() == 0 else {}
        try:
            subprocess.run(["/bin/true"], **self.who)
        except (PermissionError, subprocess.SubprocessError):
            self.who = {}

    def own(self, path):
        if self.who:
            os.chown(path, NOBODY, NOBODY)

    def folder(self, files=()):
        d = pathlib.Path(tempfile.mkdtemp(dir=self.top))
        os.chmod(d, 0o755)
        self.own(d)
        for name, text in files:
            self.put(d, name, text)
        return d

    def put(self, d, name, text):
        (d / name).write_text(text)
        os.chmod(d / name, 0o644)

    def run(self, d, args, timeout=120, threads=1):
        env = {"PATH": "/usr/bin:/bin", "OMP_NUM_THREADS": str(threads), "MALLOC_MMAP_THRESHOLD_": "1073741824", "MALLOC_TRIM_THRESHOLD_": "2147483648"}
        try:
            r = subprocess.run([str(self.bin), *args], cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, **self.who)
        except subprocess.TimeoutExpired:
            return {"rc": None, "err": "", "out": ""}
        return {"rc": r.returncode, "err": r.stderr.decode(errors="replace"), "out": r.stdout.decode(errors="replace")}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def listing(d):
    """Everything below d: name -> contents."""
    out = {}
    for base, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            if os.path.islink(p):
                continue
            out[os.path.relpath(p, d)] = pathlib.Path(p).read_bytes()
        for n in dirs:
            out.setdefault(os.path.relpath(os.path.join(base, n), d) + "/", b"")
    return out


def literal(v, rnd=None):
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, list):
        a, b = rnd.choice(["[]", "[]", "()"]) if rnd and v else "[]"
        return a + ", ".join(literal(x) for x in v) + b
    return repr(v)


class Settings:
    """A valid request, as a settings file and as calls of the package."""

    def __init__(self, rnd, way, contributions=None, path="res", prefix="x_", columns=None, light=False):
        self.rnd, self.way = rnd, way
        u, kind = rnd.uniform, KINDS.index(way["kind"]) + 1
        self.kind = kind
        self.files = {}
        kw, late = {}, []
        m, g = round(u(0.2, 0.4), 4), rnd.choice([0.0, 9e-5, 1e-3])
        if columns is None:
            columns = rnd.sample(COLUMNS, rnd.randint(1, 8)) if rnd.random() < 0.5 else list(COLUMNS)
        self.columns = columns
        s = {"verbose": rnd.randint(0, 1), "output_type": kind, "background_sampling": rnd.randint(150, 700),
             "omega_m": m, "omega_baryon": round(u(0.03, 0.06), 4), "omega_gamma": g, "w0": rnd.choice([-1.0, -0.9, round(u(-1.1, -0.8), 2)]),
             "wa": rnd.choice([0.0, 0.0, 0.2, -0.1]), "interpolation": 5, "bessel_sampling": rnd.randint(300, 1200),
             "integration_method": 2, "integration_sampling": rnd.choice([1000, 3000]),
             "flatsky_local": rnd.choice([0, 0, 1]), "flatsky_local_nonlocal": 0, "flatsky_nonlocal": 0,
             "b_derivative": 0, "f_derivative": 0, "b_tilde_derivative": 0, "f_tilde_derivative": 0,
             "have_window": int(way["window"]), "only_cross_correlations": 0, "output_path": path, "output_prefix": prefix}
        if rnd.random() < 0.3:
            del s["interpolation"]
        if columns:
            s["output_background"] = columns
        for x in ("omega_m", "omega_baryon", "omega_gamma", "w0", "wa", "background_sampling", "integration_sampling"):
            kw[x] = s[x]
        kw["omega_gamma"], kw["omega_m"], kw["omega_baryon"] = g, m, s["omega_baryon"]
        kw["integrals_fftlog_sampling"] = s["bessel_sampling"]
        # what is summed
        if contributions is None:
            few = ["den", "rsd", "d1"]
            contributions = rnd.sample(few, rnd.randint(1, 3))
            if kind < 4 and not light:
                if rnd.random() < 0.15:
                    contributions.append("len")
                if rnd.random() < 0.12:
                    contributions.append(rnd.choice(["d2", "g1", "g2", "g3", "g4", "g5"]))
            rnd.shuffle(contributions)
        self.contributions = contributions
        s["correlation_contributions"] = contributions
        for c, n in CONTRIBUTIONS.items():
            kw[n] = c in contributions
        if len(contributions) > 1 and rnd.random() < 0.3:
            s["only_cross_correlations"] = 1
        kw["has_only_cross_correlations"] = bool(s["only_cross_correlations"])
        if "len" in contributions and rnd.random() < 0.4:
            s["flatsky_local_nonlocal"] = s["flatsky_nonlocal"] = 1
        for f in ("flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal"):
            kw["has_" + f] = bool(s[f])
        # the grid
        n = rnd.randint(1, 3 if kind < 4 else 2)
        z = sorted(round(u(0.6, 1.6), 3) for _ in range(n))
        if kind in (1, 2, 4):
            s["z_mean"] = kw["z_mean"] = z
            kw["deltaz"] = [0.1] * n
        if kind == 1:
            s["mu"] = kw["mu"] = [round(u(-0.99, 0.99), 3) for _ in range(rnd.randint(1, 3))]
        else:
            s["multipoles"] = kw["l"] = rnd.sample([0, 1, 2, 3, 4], rnd.randint(1, 3)) if kind < 4 else rnd.sample([0, 2, 4, 1], rnd.randint(1, 2))
        if kind in (3, 5):
            a, b = ("z_min", "z_max") if kind == 3 else ("zmin", "zmax")
            w = [round(u(0.05, 0.2), 3) for _ in z]
            s[a], s[b] = [x - y for x, y in zip(z, w)], [x + y for x, y in zip(z, w)]
            kw["z_min"], kw["z_max"] = s[a], s[b]
            kw["deltaz"] = [0.1] * n
        if kind == 4:
            s["deltaz"] = kw["deltaz"] = [round(u(0.05, 0.3), 3) for _ in z]
        if kind > 3:
            for a, b, lo, hi in (("density1", "number_density1", 1e-4, 1e-2), ("density2", "number_density2", 1e-4, 1e-2), ("fsky", "fsky", 0.1, 1),
                                 ("pixelsize", "pixelsize", 2, 15)):
                s[a] = kw[b] = [round(u(lo, hi), 6) for _ in z]
            s["covariance_window"] = rnd.randint(0, 1)
            kw["has_binned_covariance"] = bool(s["covariance_window"])
        lo, hi, k = round(u(20, 40), 2), round(u(60, 160), 2), rnd.randint(1, 5 if kind < 3 else 3)
        s["separations_min"], s["separations_max"] = lo, hi
        if way["step"]:
            step = rnd.choice([round((hi - lo) / (k + u(-0.4, 0.4)), 3), (hi - lo) / k])
            s["separations_step"] = step
            k = math.ceil((hi - lo) / step - 1e-10)
            hi = lo + k * step
        else:
            s["separations_sampling"] = k
        kw["sep"] = [lo + (hi - lo) * i / k for i in range(k)]
        # the covariance's integrals
        s["covariance_integration_method"] = 2 if way["fftlog"] else 1
        if way["fftlog"]:
            s["covariance_integration_bins"] = kw["covariance_integration_sampling"] = 2 * rnd.randint(100, 200)
            s["covariance_interpolation_method"] = rnd.randint(1, 2)
            kw["covariance_integration_method"] = "fftlog"
            kw["covariance_interpolation_method"] = ["bilinear", "bicubic"][s["covariance_interpolation_method"] - 1]
        # the spectrum
        self.tol, self.range = 1e-8, None
        s["k_min"], s["k_max"] = 1e-8, 1e5
        s["input_power_spectrum"] = rnd.choice(["", "absent.dat"])
        if way["spectrum"]:
            n, k0, k1 = rnd.randint(120, 300), 10 ** u(-4.5, -4), 10 ** u(0.5, 1.2)
            ks = [k0 * (k1 / k0) ** (i / (n - 1)) for i in range(n)]
            amp, keq, tilt = u(1e4, 4e4), u(0.01, 0.03), u(0.9, 1)
            ps = [amp * (x / keq) ** tilt / (1 + (x / keq) ** 2.4) for x in ks]
            s["input_power_spectrum"] = "pk.dat"
            s["k_min"], s["k_max"] = k0 / 2, k1 * 2
            self.files["pk.dat"] = self.table(ks, ps)
            if way["window"]:
                s["window_size"] = r = round(u(1, 8), 2)
                ps = [p * (3 * (math.sin(x * r) - x * r * math.cos(x * r)) / (x * r) ** 3) ** 2 for x, p in zip(ks, ps)]
        else:
            ks, ps = DEFAULT
            if way["window"]:
                s["window_size"] = round(u(1, 8), 2)
        if rnd.random() < 0.3:
            # a part of the table
            i = rnd.randrange(len(ks) // 10) if way["spectrum"] else rnd.randint(30, 42)
            j = len(ks) - rnd.randrange(1, len(ks) // 10 + 1)
            s["k_min"], s["k_max"] = ks[i], ks[j]
            ks, ps = ks[i:j + 1], ps[i:j + 1]
            self.tol = 2e-3
        late.append(("pk", [ks, ps]))
        # the biases
        for b in BIASES:
            if way["table"] == b:
                n = rnd.randint(5, 30)
                zs = [0.0] + sorted(round(u(0.01, 14.9), 4) for _ in range(n - 2)) + [15.0]
                zs = [x for i, x in enumerate(zs) if i == 0 or x - zs[i - 1] > 1e-3]
                while len(zs) < 5:
                    zs.append(zs[-1] + 0.5)
                v = [round(u(0.2, 2.5), 4) for _ in zs]
                s["read_" + b], s["input_" + b] = 1, b + ".dat"
                self.files[b + ".dat"] = self.table(zs, v)
                late.append((b, [zs, v]))
            else:
                s[b] = round(u(0.2, 2.5), 3)
                if rnd.random() < 0.6:
                    s["read_" + b] = 0
                late.append((b, [[float(i) for i in range(11)], [s[b]] * 11]))
        self.s = s
        self.kw, self.late = kw, late

    def table(self, x, y):
        rnd = self.rnd
        sep = rnd.choice([" ", "\t", ",", ":", ", ", "  "])
        lines = [repr(a) + sep + repr(b) for a, b in zip(x, y)]
        if rnd.random() < 0.4:
            lines.insert(0, "# a comment")
        if rnd.random() < 0.2:
            lines.insert(len(lines) // 2, "")
        if rnd.random() < 0.2:
            lines.insert(len(lines) // 2, "# " + "long comment " * 60)
        return "\n".join(lines) + rnd.choice(["\n", "\n", ""])

    def text(self, s=None):
        rnd, s = self.rnd, dict(self.s if s is None else s)
        names = list(s)
        rnd.shuffle(names)
        out = []
        for n in names:
            v = s[n]
            t = v.text if isinstance(v, Raw) else literal(v, rnd)
            out.append(n + rnd.choice([" = ", "=", " : "]) + t + rnd.choice([";", ";", ""]))
            if rnd.random() < 0.1:
                out.append("# " + n + " was set above; x = 3;")
        return "\n".join(out) + "\n"

    def all_files(self, s=None):
        return [("settings.in", self.text(s)), *self.files.items()]

    def job(self, jid):
        n = self.s["background_sampling"]
        ops = [{"e": "new", "o": 1, "kw": {}}, {"e": "set", "o": 1, "s": "omega_gamma", "v": 0.0}]
        kw = dict(self.kw)
        order = ["omega_baryon", "omega_m", "omega_gamma"]
        ops += [{"e": "set", "o": 1, "s": x, "v": kw.pop(x)} for x in order]
        ops.append({"e": "setall", "o": 1, "kw": kw})
        ops += [{"e": "set", "o": 1, "s": a, "v": b} for a, b in self.late]
        ops.append({"e": "call", "o": 1, "m": BULK[self.kind - 1]})
        zs = [15.0 * i / (n - 1) for i in range(n)]
        ops += [{"e": "calls", "o": 1, "m": m, "args": [[z] for z in zs[::7] + [zs[-1]]]} for m in METHODS]
        return {"id": jid, "ops": ops}, zs


class Raw:
    def __init__(self, text):
        self.text = text


def values(reply):
    """What the package returned: the rows, and the background's columns; None if something failed."""
    if "dead" in reply:
        return None, reply["dead"]
    for r in reply["out"]:
        if "err" in r:
            return None, r["err"] + ": " + r["msg"]
    return reply["out"], None


def numbers(text):
    head, rows = [], []
    for line in text.splitlines():
        if line.startswith("#"):
            head.append(line)
        elif line.strip():
            rows.append(line.split())
    return head, rows


def close(a, b, size, tol):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) + size


def alike(a, b):
    """Two results; settings are copied to 15 digits."""
    (h, x), (g, y) = numbers(a), numbers(b)
    if h != g or len(x) != len(y) or any(len(p) != len(q) for p, q in zip(x, y)):
        return False
    size = [max(abs(float(q[i])) for q in y) for i in range(len(y[0]))] if y else []
    return all(abs(float(u) - float(v)) <= 1e-7 * s + (1e-9 if len(p) == 5 else 1e-15) for p, q in zip(x, y) for u, v, s in zip(p, q, size))


def judge_files(req, got, want, zs, tol=1e-8):
    """The three files against what the package returned; got: short name -> text.  A list of complaints."""
    bad = []
    name = KINDS[req.kind - 1]
    rows = want[-8]["ok"]
    head, have = numbers(got[name])
    fields = FIELDS[req.kind - 1]
    if len(have) != len(rows):
        return [f"{len(have)} rows where the package has {len(rows)}"]
    for h, w in zip(have, rows):
        if len(h) != len(fields):
            return [f"a row of {len(h)} columns: {' '.join(h)}"]
    # rounding: odd multipoles may vanish, and averages are found by adaptive integration
    noise = 1e-11 * max([abs(r["value"]) for r in rows] + [0.0]) + [0, 1e-15, 1e-12, 1e-9, 0, 0][req.kind]
    if req.kind == 3:
        tol = max(tol, 1e-5)
    for h, w in zip(have, rows):
        for f, x in zip(fields, h):
            try:
                x = float(x)
            except ValueError:
                bad.append(f"{x} is not a number")
                continue
            if not close(x, w[f], noise if f == "value" else 0, tol if f == "value" else 1e-9):
                bad.append(f"{f} is {x} where the package has {w[f]!r}, in the row {' '.join(h)}")
    if req.kind < 5:
        listed = set(re.findall(r"\b(den|rsd|len|d1|d2|g[1-5])\b", head[0])) if head else set()
        if listed != set(req.contributions):
            bad.append(f"the header lists {sorted(listed)} for {sorted(req.contributions)}")
    # the background
    if req.columns:
        head, have = numbers(got["background"])
        if len(have) != len(zs) or any(len(r) != len(req.columns) for r in have):
            bad.append(f"a background table of {len(have)} rows and {len(have[0]) if have else 0} columns")
        else:
            table = {"z": zs[::7] + [zs[-1]], **{c: want[-7 + i]["ok"] for i, c in enumerate(COLUMNS[1:])}}
            for i, c in enumerate(req.columns):
                mine = [float(r[i]) for r in have][::7] + [float(have[-1][i])]
                size = max(map(abs, table[c]))
                for z, x, y in zip(table["z"], mine, table[c]):
                    if not (isinstance(y, float) and close(x, y, 1e-11 * size, 1e-8)):
                        bad.append(f"{c}({z}) is {x} in the table where the package has {y}")
            named = re.findall(r"\d+\)([A-Za-z_0-9]+)", head[0]) if head else []
            if named != req.columns:
                bad.append(f"the background's header names {named} for {req.columns}")
    return bad


# ---------------------------------------------------------------- faults
def spoil(req, fault, rnd):
    """The settings and files with one fault; None if the request has no such fault to have."""
    name, how = fault
    s, files = dict(req.s), dict(req.files)
    have = s.get(name)
    lists = isinstance(have, list)

    def wrong_element(v):
        x = list(have)
        x[rnd.randrange(len(x))] = v
        return x

    def number(v):
        s[name] = wrong_element(v) if lists else v

    def table(text):
        files[s[name] if isinstance(s.get(name), str) and s[name] else "table.dat"] = text
        if not (isinstance(s.get(name), str) and s[name] in files):
            s[name] = "table.dat"

    good = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0] if name != "input_power_spectrum" else [1e-4 * 3 ** i for i in range(12)]
    if how == "missing":
        s.pop(name, None)
    elif how == "text":
        s[name] = wrong_element("word") if lists and rnd.random() < 0.6 else "word" if not lists else ["word"]
        if lists and isinstance(s[name], list) and len(s[name]) > 1:
            s[name] = Raw("(" + ", ".join(literal(x) for x in s[name]) + ")")
    elif how == "scalar":
        s[name] = have[0] if lists else ("z" if name in ("output_background", "correlation_contributions") else 1)
    elif how == "empty":
        s[name] = []
    elif how == "number":
        s[name] = [1, 2] if name in ("correlation_contributions", "output_background") else 5
    elif how == "unknown":
        s[name] = (list(have) if lists else []) + [rnd.choice(["density", "DEN", "x", "g6", ""])]
    elif how == "toomany":
        s[name] = ["z", "a", "H"] * 7
    elif how == "zero":
        number(0.0 if lists and isinstance(have[0], float) or isinstance(have, float) else 0)
    elif how == "odd":
        s[name] = 2 * rnd.randint(4, 100) + 1
    elif how == "negative":
        number(-rnd.randint(1, 5) if not (lists and isinstance(have[0], float) or isinstance(have, float)) else -rnd.uniform(0.01, 3))
    elif how == "beyond":
        v = {"output_type": 6, "interpolation": 8, "covariance_integration_method": 3, "covariance_interpolation_method": 3, "integration_method": 3,
             "omega_m": rnd.uniform(1.01, 2), "omega_gamma": rnd.uniform(0.9, 2), "separations_min": s["separations_max"] + rnd.uniform(0, 5),
             "k_min": s["k_max"] * rnd.uniform(1, 3), "window_size": rnd.uniform(1000, 3000), "z_mean": rnd.uniform(15.1, 40), "mu": rnd.uniform(1.01, 3),
             "multipoles": rnd.randint(11, 30), "fsky": rnd.uniform(1.01, 2)}.get(name)
        if name in ("z_min", "zmin"):
            i = rnd.randrange(len(have)) if lists else 0
            v = s[name.replace("min", "max")][i] + rnd.uniform(0.001, 0.5) if lists else 1
            s[name] = [v if j == i else x for j, x in enumerate(have)] if lists else v
        elif name in ("z_max", "zmax"):
            number(rnd.uniform(15.5, 20))
        elif name == "deltaz":
            i = rnd.randrange(len(have)) if lists else 0
            s[name] = [s["z_mean"][i] * 1.05 if j == i else x for j, x in enumerate(have)] if lists else 20.0
        else:
            number(v)
    elif how == "wide":
        s[name] = [14.9 - 0.2] * len(have) if lists else 14.7
        if lists and "z_mean" in s:
            s["z_mean"] = [14.8] * len(s["z_mean"])
    elif how == "below":
        if name in ("z_max", "zmax"):
            i = rnd.randrange(len(have)) if lists else 0
            s[name] = [s[name.replace("max", "min")][i] - rnd.uniform(0, 0.3) if j == i else x for j, x in enumerate(have)] if lists else 0.1
        elif name == "mu":
            number(-rnd.uniform(1.01, 3))
        elif name == "k_max":
            s[name] = s["k_min"] * rnd.uniform(0.1, 1)
        else:
            s[name] = s["separations_min"] - rnd.uniform(0, 10)
            if "separations_step" in s and s["separations_max"] == s["separations_min"]:
                s[name] -= 1
    elif how == "more":
        s[name] = list(have) + [have[-1]] if lists else [1.0, 2.0]
    elif how == "both":
        s["separations_step"], s["separations_sampling"] = s.get("separations_step", 10.0), s.get("separations_sampling", 2)
    elif how == "two":
        a, b = rnd.sample(["b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative"], 2)
        s[a] = s[b] = 1
    elif how == "long":
        s[name] = "long" * rnd.randint(64, 120)
    elif how == "unreadable":
        s[name] = "no-such-table.dat"
    elif how == "folder":
        s[name] = "."
    elif how == "nothing":
        table(rnd.choice(["", "# only a comment\n", "\n\n"]))
    elif how == "unsorted":
        x = list(good)
        i = rnd.randrange(1, len(x))
        x[i - 1], x[i] = rnd.choice([(x[i], x[i - 1]), (x[i], x[i])])
        table("".join(f"{a} 1.5\n" for a in x))
    elif how == "short":
        table("".join(f"{a} 1.5\n" for a in good[:rnd.randint(1, 4)]))
    elif how == "half":
        x = [f"{a} 1.5" for a in good]
        i = rnd.randrange(len(x))
        x[i] = x[i].split()[0]
        table("\n".join(x) + "\n")
    elif how == "words":
        x = [f"{a} 1.5" for a in good]
        i = rnd.randrange(len(x))
        x[i] = rnd.choice(["one two", f"{good[i]} two", "one 1.5"])
        table("\n".join(x) + "\n")
    else:
        raise KeyError(how)
    if name == "interpolation" and how == "short":
        s.pop("interpolation", None)
    return s, files


def message(r):
    """What the program says, without warnings and what it says of settings it goes on without."""
    lines = [x for x in (r["err"] + "\n" + r["out"]).splitlines() if x.strip() and "continuing" not in x and "WARNING" not in x]
    return lines


def failed_cleanly(r, what):
    if r["rc"] is None:
        return f"{what}: no answer"
    if r["rc"] < 0 or r["rc"] >= 128:
        return f"{what}: crashed (status {r['rc']}): {r['err'][-300:]}"
    if r["rc"] == 0:
        return f"{what}: exits with success"
    if not message(r):
        return f"{what}: no message"
    return None


def first_model(ctx):
    st = tlc.model_check("CoffeCli")
    ctx.add(**st)
    return tlc.export("CoffeCliExport")


def parallel(f, items, n=8):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- P23
def p23(ctx):
    rnd = random.Random(ctx.seed * 7 + 23)
    model = first_model(ctx)
    box = Box(ctx)
    try:
        _faults(ctx, box, rnd, model)
        _lines(ctx, box, rnd, model)
        _outputs(ctx, box, rnd, model)
        _histories(ctx, box, rnd, False)
    finally:
        box.close()
    return ctx.finish("model_checking")


def _faults(ctx, box, rnd, model):
    """Every fault at least once for every kind of output which reads the setting; some which must not matter."""
    todo = []
    ways = {k: [w for w in model["ways"] if w["way"]["kind"] == k] for k in KINDS}
    for k in KINDS:
        seen = {}
        for w in rnd.sample(ways[k], len(ways[k])):
            for f in w["refused"]:
                seen.setdefault(tuple(f), []).append(w["way"])
        for f, ws in sorted(seen.items()):
            for w in rnd.sample(ws, min(len(ws), ctx.q(1, 12))):
                todo.append((w, f, True))
        ign = {}
        for w in rnd.sample(ways[k], len(ways[k])):
            for f in w["ignored"]:
                if f[1] not in ("two", "both", "wide"):
                    ign.setdefault(tuple(f), []).append(w["way"])
        for f in rnd.sample(sorted(ign), min(len(ign), ctx.q(12, len(ign)))):
            todo.append((rnd.choice(ign[f]), f, False))

    def one(item):
        (w, f, refused), seed = item
        r = random.Random(seed)
        path = r.choice(["res", "res/", "a/b", "."])
        req = Settings(r, {**w, "spectrum": w["spectrum"] or f == ("input_power_spectrum", "unsorted") or f == ("input_power_spectrum", "short")},
                       path=path, light=True)
        if not refused and req.kind > 2:
            req.s["separations_max"] = req.s["separations_min"] + 1
        if f[0] == "interpolation":
            req.s["interpolation"] = 5
        s, files = spoil(req, f, r)
        d = box.folder([("settings.in", req.text(s)), *files.items()])
        before = listing(d)
        res = box.run(d, ["-s", "settings.in"], timeout=150)
        after = listing(d)
        what = f"{w['kind']} with {f[0]} {f[1]} ({s.get(f[0]).text if isinstance(s.get(f[0]), Raw) else s.get(f[0])!r})"
        bad = None
        if refused:
            bad = failed_cleanly(res, what)
            wrote = sorted(set(after) - set(before))
            if not bad and (wrote or any(after[x] != before[x] for x in before)):
                bad = f"{what}: writes {wrote}"
        elif res["rc"] != 0:
            bad = f"{what}, which is not read: status {res['rc']}, {res['err'][-200:]}"
        elif not any(x.endswith(w["kind"] + ".dat") for x in after):
            bad = f"{what}, which is not read: no result"
        text = (d / "settings.in").read_text()
        shutil.rmtree(d)
        return (bad, {"settings": text, "files": files}) if bad else None

    items = [(t, ctx.seed * 100003 + i) for i, t in enumerate(todo)]
    out = parallel(one, items)
    for b in out:
        if b:
            ctx.violation(b[0], **b[1])
    ctx.add(faults=sum(t[2] for t in todo), settings_that_do_not_matter=sum(not t[2] for t in todo))
    ctx.log("faults", len(todo))
    ctx.sample({"fault": todo[0][1], "way": todo[0][0]})


def _lines(ctx, box, rnd, model):
    """Command lines."""
    lines = [x for x in model["lines"] if len(x["args"]) < 3]
    lines += rnd.sample([x for x in model["lines"] if len(x["args"]) == 3], ctx.q(120, 1700))
    way = {"kind": "corrfunc", "step": False, "window": False, "fftlog": False, "table": "", "spectrum": False}
    base = Settings(rnd, way, contributions=["den"], light=True)
    base.s.update(background_sampling=100, bessel_sampling=100)
    text = base.text()
    wrong = [text + "\nomega_m = = 3;\n", text + "\nx = [1, 2;\n", text + '\ny = "open\n', "{", text.replace(";", "") + "\n)"]

    def one(item):
        x, seed = item
        r = random.Random(seed)
        d = box.folder([("good.cfg", text), ("wrong.cfg", r.choice(wrong))])
        before = listing(d)
        name = {"good": "good.cfg", "absent": r.choice(["absent.cfg", "no/such.cfg", "", "a" * 300]), "wrong": "wrong.cfg", "folder": "."}
        args = []
        for a in x["args"]:
            o, _, v = a.partition(" ")
            v = name.get(v, v) if o == "-s" else "word" if v == "many" else v
            args += [o] if not v and o != "-s" else [o, v] if r.random() < 0.7 or not v else [o + v]
        res = box.run(d, args)
        after = listing(d)
        wrote = sorted(set(after) - set(before))
        shutil.rmtree(d)
        what, asks = "coffe-cli " + " ".join(repr(a) for a in args), x["asks"]
        if asks == "failure":
            bad = failed_cleanly(res, what)
            return bad or (f"{what}: writes {wrote}" if wrote else None)
        if res["rc"] != 0:
            return f"{what}: status {res['rc']}, {res['err'][-200:]}"
        if asks == "run":
            return None if any(w.endswith("corrfunc.dat") for w in wrote) else f"{what}: no result"
        if wrote:
            return f"{what}: writes {wrote}"
        if not (res["out"] if asks == "version" else res["out"].strip()):      # the build gives no version
            return f"{what}: says nothing"
        said.setdefault(asks, set()).add(res["out"])
        return None

    said = {}
    for b in parallel(one, [(x, ctx.seed * 70001 + i) for i, x in enumerate(lines)]):
        if b:
            ctx.violation(b)
    for k, v in said.items():
        if len(v) > 1:
            ctx.violation(f"the {k} message differs between command lines")
    texts = [min(v) for v in said.values()]
    if len(set(texts)) != len(texts):
        ctx.violation("help, version, copyright and usage are not different messages")
    ctx.add(command_lines=len(lines))
    ctx.log("command lines", len(lines))


def break_output(box, d, folder, prefix, phase, kind, rnd):
    """Makes one file unwritable; returns how to undo it."""
    name = {"settings": "settings.cfg", "background": "background.dat", "result": kind + ".dat"}[phase]
    f = d / folder
    made = [x for x in (f, *f.parents) if not x.exists()]
    for x in reversed(made):
        x.mkdir()
        box.own(x)
    p = f / (prefix + name)
    old = p.read_bytes() if p.exists() else None
    how = rnd.choice(["directory", "full", "readonly"] if box.who else ["directory", "full"])
    if how == "full" and phase == "settings":
        how = "directory"
    if old is not None:
        p.unlink()
    if how == "directory":
        p.mkdir()
    elif how == "full":
        p.symlink_to("/dev/full")
    else:
        p.write_bytes(old or b"old")
        os.chmod(p, 0o444)

    def undo():
        if how == "directory":
            p.rmdir()
        else:
            if how == "readonly" and p.read_bytes() != (old or b"old"):
                return "a file that cannot be written was written"
            p.unlink()
        if old is not None:
            p.write_bytes(old)
            box.own(p)
        for x in made:
            if not any(x.iterdir()):
                x.rmdir()
        return None
    return how, undo


def _outputs(ctx, box, rnd, model):
    """Output folders that cannot be written."""
    ways = [{"kind": k, "step": False, "window": False, "fftlog": False, "table": "", "spectrum": False} for k in KINDS]
    todo = [(w, h) for w in ways for h in ("below a file", "a file", "not allowed", "not allowed below", "settings", "background", "result")
            if box.who or not h.startswith("not")]
    todo = todo * ctx.q(2, 12)

    def one(item):
        (w, how), seed = item
        r = random.Random(seed)
        path = {"below a file": "blocker/res", "a file": "blocker", "not allowed": "closed", "not allowed below": "closed/a/b"}.get(how, "res")
        req = Settings(r, w, path=path, light=True, contributions=["den"], columns=["z", "a"])
        d = box.folder(req.all_files())
        if "blocker" in path:
            box.put(d, "blocker", "here")
        if "closed" in path:
            (d / "closed").mkdir()
            os.chmod(d / "closed", 0o555)
        undo = lambda: None
        if how in ("settings", "background", "result"):
            detail, undo = break_output(box, d, "res", "x_", how, w["kind"], r)
            how = f"{how} ({detail})"
        before = {k: v for k, v in listing(d).items()}
        res = box.run(d, ["-s", "settings.in"])
        after = listing(d)
        what = f"{w['kind']} into a folder: {how}"
        bad = failed_cleanly(res, what)
        if not bad and any(k.endswith(w["kind"] + ".dat") and k not in before for k in after):
            bad = f"{what}: writes its result"
        if not bad and "blocker" in path and after.get("blocker") != b"here":
            bad = f"{what}: overwrites the file"
        bad = undo() or bad
        shutil.rmtree(d)
        return bad

    for b in parallel(one, [(t, ctx.seed * 50021 + i) for i, t in enumerate(todo)]):
        if b:
            ctx.violation(b)
    ctx.add(unwritable_outputs=len(todo))
    ctx.log("outputs", len(todo))


# ---------------------------------------------------------------- histories
def _histories(ctx, box, rnd, judged):
    """Runs into one folder; the folder after each."""
    out = tlc.tlc("CoffeCliHistory", ("-simulate", f"num={ctx.q(24, 400)}", "-depth", "60", "-seed", str(ctx.seed * 11 + 5), "-workers", "1"))
    hists = tlc.printed(out, "HISTORY")
    jobs, later = [], []

    def one(item):
        i, h = item
        r = random.Random(ctx.seed * 9001 + i)
        prefixes = {1: r.choice(["x_", "", "run1."]), 2: "other-"}
        path = r.choice(["res", "res/", "deep/er/", "."])
        d = box.folder()
        kept, bads, mine = {}, [], []
        for step in h:
            run, want, f = step["run"], step["status"], step["run"]["fault"]
            k, p = run["kind"], prefixes[run["prefix"]]
            way = {"kind": k, "step": r.random() < 0.3, "window": False, "fftlog": r.random() < 0.2, "table": r.choice(["", *BIASES]), "spectrum": r.random() < 0.3}
            if f == "compute":
                way["table"] = "galaxy_bias1"
                c = ["den"]
            else:
                c = None
            req = Settings(r, way, path="blocker/x" if f == "folder" else path, prefix=p, columns=None if run["columns"] else [], light=True, contributions=c)
            s, files = req.s, dict(req.files)
            args = ["-s", "settings.in", "-n", str(r.randint(1, 3))]
            if f == "arguments":
                args[3] = "0"
            if f == "parse":
                s = dict(s)
                del s[r.choice(["omega_m", "w0", "output_path", "k_max", "separations_min"])]
            if f == "compute":
                files["galaxy_bias1.dat"] = "".join(f"{z} 1\n" for z in (5, 6, 7, 8, 9, 10))
            undo = lambda: None
            for name, text in (("settings.in", req.text(s)), ("blocker", ""), *files.items()):
                box.put(d, name, text)
            if f in ("settings", "background", "result"):
                _, undo = break_output(box, d, path, p, f, k, r)
            res = box.run(d, args)
            what = f"run {run['n']} of history {i} ({k}, {f}, {'columns' if run['columns'] else 'no columns'})"
            x = undo()
            if x:
                bads.append(f"{what}: {x}")
            if want == "failure":
                bad = failed_cleanly(res, what)
                if bad:
                    bads.append(bad)
            elif res["rc"] != 0:
                bads.append(f"{what}: status {res['rc']}: {res['err'][-200:]}")
            # the folder
            for q, disk in enumerate(step["disk"], 1):
                for short, owner in disk.items():
                    file = d / path / (prefixes[q] + short + (".cfg" if short == "settings" else ".dat"))
                    have = file.read_bytes() if file.is_file() else None
                    if owner == 0:
                        if have is not None:
                            bads.append(f"{what}: {file.name} is there")
                    elif have is None:
                        bads.append(f"{what}: {file.name} is not there")
                    elif owner == run["n"]:
                        if (q, short, owner) not in kept:
                            kept[q, short, owner] = have
                    elif kept.get((q, short, owner), have) != have:
                        bads.append(f"{what}: {file.name} changed")
            extra = set()
            base = d / path
            if base.is_dir() and path != ".":
                known = {pp + s + e for pp in prefixes.values() for s, e in [("settings", ".cfg"), ("background", ".dat"), *[(kk, ".dat") for kk in KINDS]]}
                extra = {x.name for x in base.iterdir()} - known
            if extra:
                bads.append(f"{what}: leaves {sorted(extra)}")
            if want == "success" and res["rc"] == 0:
                mine.append((req, run["n"], {short: kept.get((run["prefix"], short, run["n"]), b"").decode(errors="replace") for short in ("settings", "background", k)}, what))
            if bads:
                bads = [b + "\n" + (d / "settings.in").read_text() for b in bads[:1]]
                break
        shutil.rmtree(d)
        return bads, mine

    n = 0
    for bads, mine in parallel(one, list(enumerate(hists))):
        for b in bads:
            ctx.violation(b)
        n += len(mine)
        later += mine
    ctx.add(histories=len(hists), runs=sum(len(h) for h in hists), traces_validated_against_impl=len(hists))
    ctx.log("histories", len(hists))
    return later


def compare(ctx, requests):
    """requests: (Settings, id, files, what).  Against the package."""
    jobs, zs = [], {}
    for j, (req, _, got, what) in enumerate(requests):
        job, z = req.job(j)
        jobs.append(job)
        zs[j] = z
    replies = pool.run_jobs(ctx.build, jobs, 8, 600)
    n = 0
    for j, (req, _, got, what) in enumerate(requests):
        want, why = values(replies[j])
        if want is None:
            ctx.violation(f"{what}: the package fails where coffe-cli succeeds: {why}", settings=req.s)
            continue
        n += 1
        for b in judge_files(req, got, want, zs[j], req.tol)[:2]:
            ctx.violation(f"{what}: {b}", settings=req.s, files=req.files)
    return n


# ---------------------------------------------------------------- P22
def p22(ctx):
    rnd = random.Random(ctx.seed * 5 + 22)
    model = first_model(ctx)
    box = Box(ctx)
    try:
        later = _histories(ctx, box, rnd, True)
        later += _valid(ctx, box, rnd, model)
        n = compare(ctx, later)
        ctx.add(compared_with_the_package=n)
        ctx.log("compared", n)
    finally:
        box.close()
    return ctx.finish("model_checking")


def _valid(ctx, box, rnd, model):
    """Requests of every way, each run repeatedly and differently."""
    ways = [w["way"] for w in model["ways"]]
    chosen = []
    for k in KINDS:
        mine = [w for w in ways if w["kind"] == k and (k.startswith("cov") or not w["fftlog"])]
        # each choice is made
        chosen += rnd.sample(mine, ctx.q(9, 90))
        chosen += [rnd.choice([w for w in mine if w["table"] == b]) for b in BIASES]
        chosen += [rnd.choice([w for w in mine if w["step"] and w["spectrum"] and w["window"]])]
    whole = [["den", "rsd", "d1", "d2", "g1", "g2", "g3"], ["len", "den"], ["g4"], ["g5", "rsd"], ["len"], ["d2"], ["g1", "den"], ["g2"], ["g3", "d1"]]
    special = [({"kind": k, "step": False, "window": False, "fftlog": False, "table": "", "spectrum": False}, c)
               for c in whole for k in (KINDS[:3] if ctx.thorough else [rnd.choice(KINDS[:3])])]
    todo = [(w, None) for w in chosen] + special

    def one(item):
        (w, c), seed = item
        r = random.Random(seed)
        path = r.choice(["res", "res/", "a/b/c", "./", ".", "", "ABSOLUTE", "a//b", "there"])
        prefix = r.choice(["x_", "", "run-1.", "$TIME", "a b "])
        req = Settings(r, w, contributions=c, path=path, prefix=prefix, light=c is None and r.random() < 0.6)
        d = box.folder()
        if path == "ABSOLUTE":
            req.s["output_path"] = path = str(d / "abs" / "olute")
        if path == "there":
            (d / "there").mkdir()
            box.own(d / "there")
        for name, text in req.all_files():
            box.put(d, name, text)
        what = f"{w['kind']} with {req.contributions}, path {path!r}, prefix {prefix!r}"
        runs, bad = [], []
        plans = [["-s", "settings.in", "-n", "1"], ["-n", str(r.choice([2, 4, 7])), "-s", "settings.in"]]
        if r.random() < 0.4:
            plans.append(["-s", "settings.in"])
        out = pathlib.Path(path) if path.startswith("/") else d / (path or ".")
        for args in plans:
            given = set(os.listdir(out)) if prefix == "$TIME" and out.is_dir() else set()
            res = box.run(d, args, timeout=400, threads=3)
            if res["rc"] != 0:
                bad.append(f"{what}: status {res['rc']}: {res['err'][-300:]}")
                break
            p = prefix
            if prefix == "$TIME":
                new = {m.group(1) for n in os.listdir(out) if (m := re.fullmatch(r"(\d{4}-\d\d-\d\d-\d\d-\d\d-\d\d_)(settings.cfg|background.dat|" + w["kind"] + r"\.dat)", n))}
                if not new:
                    bad.append(f"{what}: no files with the time in {sorted(os.listdir(out))}")
                    break
                p = max(new)
            got = {}
            for short in ("settings", "background", w["kind"]):
                f = out / (p + short + (".cfg" if short == "settings" else ".dat"))
                if f.is_file():
                    got[short] = f.read_text()
                elif short != "background" or req.columns:
                    bad.append(f"{what}: {f.name} is not there")
            if bad:
                break
            runs.append(got)
            if prefix != "$TIME":
                known = {p + "settings.cfg", p + "background.dat", p + w["kind"] + ".dat", "settings.in", *req.files}
                extra = {n for n in os.listdir(out) if (out / n).is_file()} - known
                if extra:
                    bad.append(f"{what}: leaves {sorted(extra)}")
        for other, args in zip(runs[1:], plans[1:]):
            for short in other:
                if other[short] != runs[0].get(short):
                    bad.append(f"{what}: {short} differs with {' '.join(args)}")
        # the copy of the settings asks for the same
        if runs and not bad and r.random() < 0.5:
            e = box.folder([("copied.cfg", runs[0]["settings"]), *req.files.items()])
            res = box.run(e, ["-s", "copied.cfg"], timeout=400, threads=2)
            mine = [p for p in listing(e if not path.startswith("/") else out).items() if p[0].endswith(w["kind"] + ".dat")]
            if res["rc"] != 0 or not mine or not alike(mine[-1][1].decode(), runs[0][w["kind"]]):
                bad.append(f"{what}: the copy of the settings gives something else: {res["rc"]} {[(a, b) for a, b in zip(mine[-1][1].decode().splitlines(), runs[0][w["kind"]].splitlines()) if a != b][:3] if mine else None}")
            shutil.rmtree(e)
        text = (d / "settings.in").read_text()
        shutil.rmtree(d)
        return bad, ((req, 0, runs[0], what) if runs and not bad else None), text, req

    later = []
    for bad, x, text, req in parallel(one, [(t, ctx.seed * 30011 + i) for i, t in enumerate(todo)]):
        for b in bad[:2]:
            ctx.violation(b, text=text, files=req.files)
        if x:
            later.append(x)
    ctx.add(requests=len(todo))
    ctx.log("requests", len(todo))
    ctx.sample(later[0][0].s if later else {})
    return later
