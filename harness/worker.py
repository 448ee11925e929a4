"""Executes scripts of public calls on the real coffe package.

Usage: worker.py BUILD_DIR.  Reads one JSON job per line on stdin, writes one JSON line per job
on the original stdout.  A job is {"id":..., "ops":[...]}; the reply {"id":..., "out":[...]}
holds one outcome per operation: {"ok": value} or {"err": exception class, "msg": text}.
Nothing is judged here.
"""
import ctypes
import json
import os
import sys

channel = os.fdopen(os.dup(1), "w", buffering=1)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)

B = sys.argv[1]
sys.setdlopenflags(os.RTLD_GLOBAL | os.RTLD_LAZY)
if len(sys.argv) < 3 or sys.argv[2] != "nostub":
    ctypes.CDLL(B + "/stub.so", os.RTLD_GLOBAL | os.RTLD_LAZY)
sys.path.insert(0, B + "/stage")
import numpy as np                 # noqa: E402
from coffe import Coffe            # noqa: E402

BIASES = ("galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4",
          "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2")


def dec(v):
    """JSON -> Python, with escapes for what JSON lacks."""
    if isinstance(v, dict) and "$" in v:
        t, x = v["$"], v.get("v")
        if t == "nan":
            return float("nan")
        if t == "inf":
            return float("inf")
        if t == "-inf":
            return float("-inf")
        if t == "array":
            return np.array(dec(x))
        if t == "tuple":
            return tuple(dec(x))
        if t == "npfloat":
            return np.float64(x)
        if t == "npint":
            return np.int64(x)
        if t == "hex":
            return float.fromhex(x)
        raise KeyError(t)
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def enc(v):
    if isinstance(v, np.ndarray):
        return [enc(x) for x in v.tolist()] if v.dtype != object else [enc(x) for x in v]
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if hasattr(v, "to_dict"):
        return enc(v.to_dict())
    return repr(v)


def setone(o, name, v):
    if name == "pk":
        o.set_power_spectrum_linear(*dec(v))
    elif name in BIASES:
        getattr(o, "set_" + name)(*dec(v))
    else:
        setattr(o, name, dec(v))


def getone(o, name):
    if name in BIASES:
        return [getattr(o, name + "_redshifts")(), getattr(o, name + "_values")()]
    return getattr(o, name)


def attempt(f):
    try:
        return f()
    except Exception as e:                                  # noqa: BLE001
        return "error " + type(e).__name__


def rows(f):
    def go():
        return [list(x.to_dict().values()) for x in f()]
    return attempt(go)


Z = (0.3, 1.0, 2.7)


def observe(o, k):
    """The results the histories ask for, by kind."""
    if k == "background":
        return [attempt(lambda f=f, z=z: getattr(o, f)(z)) for f in
                ("comoving_distance", "hubble_rate", "hubble_rate_conformal", "hubble_rate_conformal_derivative",
                 "growth_factor", "growth_rate", "scale_factor") for z in Z] + \
               [attempt(lambda: o.maximum_separation(1.0, 0.1))]
    if k == "power":
        return [attempt(lambda kk=kk, z=z: o.power_spectrum(kk, z)) for kk in (3e-3, 0.05, 0.7, 8.0) for z in (0.0, 1.3)] + \
               [attempt(lambda: o.cross_spectrum(0.04, 0.4, 1.1))]
    if k == "integral":
        return [attempt(lambda n=n, l=l, r=r: o.integral(r=r, n=n, l=l)) for n, l in ((0, 0), (0, 2), (1, 1), (2, 0), (3, 1), (2, 2))
                for r in (3.0, 45.0)] + [attempt(lambda: o.integral(r=45.0, n=4, l=0))]
    if k == "cf1":
        return [attempt(lambda m=m, r=r: o.compute_corrfunc(z=0.9, r=r, mu=m)) for m, r in ((0.3, 40.0), (-0.7, 25.0))]
    if k == "mp1":
        return [attempt(lambda l=l: o.compute_multipole(z=0.9, r=40.0, l=l)) for l in (0, 1, 2)]
    if k == "cfb":
        return rows(o.compute_corrfunc_bulk)
    if k == "mpb":
        return rows(o.compute_multipoles_bulk)
    if k == "ampb":
        return rows(o.compute_average_multipoles_bulk)
    if k == "covb":
        return rows(o.compute_covariance_bulk)
    if k == "acovb":
        return rows(o.compute_average_covariance_bulk)
    if k == "cfr":
        return rows(lambda: o.compute_corrfunc_bulk(recompute=True))
    if k == "mpr":
        return rows(lambda: o.compute_multipoles_bulk(recompute=True))
    if k == "covr":
        return rows(lambda: o.compute_covariance_bulk(recompute=True))
    if k == "biases":
        return [attempt(lambda b=b, z=z: getattr(o, b)(z)) for b in BIASES for z in (0.4, 1.0)]
    raise KeyError(k)


def read(o, op):
    r = op["r"]
    if r == "all":
        for n in sorted(dir(type(o))):
            if not n.startswith("_") and not callable(getattr(o, n)):
                getattr(o, n)
    elif r == "parameters":
        o.parameters
    elif r == "file":
        o.to_file(os.devnull)
    elif r == "get":
        getone(o, op["s"])
    elif r == "biases":
        for b in BIASES:
            getone(o, b)
            getattr(o, b)(0.5)
    elif r == "repr":
        repr(o), str(o), dir(o), hash(o)
    else:
        raise KeyError(r)


def run(job):
    objs, out, pid = {}, [], os.getpid()
    tmp = job.get("tmp")
    for i, op in enumerate(job["ops"]):
        e = op["e"]

        def step():
            if e == "new":
                o = Coffe(**{k: dec(v) for k, v in op.get("kw", {}).items()})
                objs[op["o"]] = o
                for name, v in op.get("set", []):
                    setone(o, name, v)
                return None
            if e == "from_file":
                objs[op["o"]] = Coffe.from_file(op["path"])
                return None
            if e == "del":
                del objs[op["o"]]
                return None
            o = objs[op["o"]]
            if e == "set":
                return setone(o, op["s"], op["v"])
            if e == "setall":
                return o.set_parameters(**{k: dec(v) for k, v in op["kw"].items()})
            if e == "get":
                return getone(o, op["s"])
            if e == "getall":
                return {s: enc(getone(o, s)) for s in op["names"]}
            if e == "ask":
                return observe(o, op["k"])
            if e == "read":
                return read(o, op)
            if e == "call":
                return getattr(o, op["m"])(*dec(op.get("a", [])), **{k: dec(v) for k, v in op.get("kw", {}).items()})
            if e == "calls":        # many calls of one method
                f = getattr(o, op["m"])
                return [attempt(lambda kw=kw: f(**kw)) if isinstance(kw, dict) else attempt(lambda kw=kw: f(*kw)) for kw in op["args"]]
            if e == "to_file":
                return o.to_file(op["path"])
            raise KeyError(e)

        try:
            out.append({"ok": enc(step())})
        except Exception as x:                              # noqa: BLE001
            out.append({"err": type(x).__name__, "msg": str(x)[:200]})
            if e in ("new", "from_file") and op.get("must", True) and op["o"] not in objs:
                # nothing can follow
                out.extend({"err": "NoObject", "msg": ""} for _ in job["ops"][i + 1:])
                break
    objs.clear()
    return {"id": job["id"], "out": out}


def forked(job):
    """Parts of a job, each in a process in which nothing was computed before."""
    out = []
    for a, b in zip(job["cuts"], job["cuts"][1:] + [len(job["ops"])]):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(run({"id": job["id"], "ops": job["ops"][a:b]})))
                f.flush()
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            s = f.read()
        st = os.waitpid(pid, 0)[1]
        if st or not s:
            return {"id": job["id"], "dead": "the process ended (status %d)" % st}
        out += json.loads(s)["out"]
    return {"id": job["id"], "out": out}


for line in sys.stdin:
    job = json.loads(line)
    # a process that forks computes nothing itself
    channel.write(json.dumps(forked(job) if "cuts" in job else run(job)) + "\n")
    channel.flush()
