"""Runs TLC."""
import json
import os
import pathlib
import re
import shutil
import subprocess
import tempfile

SPEC = pathlib.Path(__file__).resolve().parent.parent / "spec"


class ModelFailure(RuntimeError):
    """TLC or the specification itself failed: an error of the check, not a verdict."""


def tlc(module, args=(), env=None, timeout=600, cfg=None, ok=(0,), heap="4g", cfgtext=None):
    """Runs TLC on spec/<module>.tla in a scratch copy of the spec directory; returns its output."""
    with tempfile.TemporaryDirectory(prefix="coffe-tlc-") as d:
        for f in SPEC.iterdir():
            if f.suffix in (".tla", ".cfg"):
                shutil.copy(f, d)
        if cfgtext is not None:
            pathlib.Path(d, (cfg or module) + ".cfg").write_text(cfgtext)
        e = dict(os.environ)
        e.update(env or {})
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -Dfile.encoding=UTF-8"
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", d + "/states", "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise ModelFailure(f"TLC on {module} took more than {timeout} s") from x
        if r.returncode not in ok:
            raise ModelFailure(f"TLC on {module} ended with {r.returncode}:\n{r.stdout[-3000:]}")
        return r.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", "")) or m
    return {"transitions": int(m[-1][0]), "states": int(m[-1][1])} if m else {"transitions": 0, "states": 0}


def model_check(module, cfg=None, args=("-workers", "auto"), timeout=600, env=None):
    """The specification's own properties, exhaustively. A failure is a failure of the model."""
    out = tlc(module, args, env=env, timeout=timeout, cfg=cfg)
    if "No error has been found" not in out:
        raise ModelFailure(f"{module}: {out[-3000:]}")
    return stats(out)


def printed(out, tag):
    """The JSON values TLC printed as "TAG {json}"."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def export(module, env=None, timeout=300, args=()):
    """A module whose ASSUME writes JSON to $OUT."""
    with tempfile.NamedTemporaryFile(suffix=".json", prefix="coffe-exp-") as f:
        e = {"OUT": f.name}
        e.update(env or {})
        tlc(module, args, env=e, timeout=timeout)
        return json.load(open(f.name))


def validate(events):
    """Is the recorded trace a behaviour of the specification?  Returns the verdict."""
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", prefix="coffe-trace-") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
        f.flush()
        out = tlc("CoffeTrace", ("-workers", "1"), env={"TRACE": f.name}, timeout=600)
        v = printed(out, "VERDICT")
        if not v or v[-1]["n"] != len(events):
            raise ModelFailure("no verdict:\n" + out[-3000:])
        return v[-1], stats(out)
