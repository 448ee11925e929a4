"""Builds JCGoran/coffe from /repo's current working tree, out of tree.

The build uses /repo's own CMake files with the options of the reference build, into
/verif/.build/<hash of the sources>, so that a check always sees the code as it is now
and repeated checks on an unchanged tree share one build.
"""
import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("COFFE_REPO", "/repo"))
VENV = "/opt/coffe-venv/bin"
NOOP = "/usr/lib/x86_64-linux-gnu/libm.so"


class BuildError(RuntimeError):
    pass


def _sources():
    out = []
    for base in ("src", "python", "cmake"):
        for p in sorted((REPO / base).rglob("*")):
            if p.is_file() and "__pycache__" not in p.parts:
                out.append(p)
    out.append(REPO / "CMakeLists.txt")
    out.append(VERIF / "harness" / "stub.c")
    out.append(VERIF / "harness" / "build.py")
    out.append(VERIF / "harness" / "cc.sh")
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(str(p).encode())
        h.update(b"\0")
        h.update(p.read_bytes())
        h.update(b"\0")
    return h.hexdigest()[:16]


def _run(cmd, env, log):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.write("$ " + " ".join(map(str, cmd)) + "\n" + r.stdout + "\n")
    if r.returncode != 0:
        raise BuildError(f"{cmd[0]} failed ({r.returncode}):\n{r.stdout[-4000:]}")


def build(cli=True):
    """Returns the directory that holds stage/ (python package), coffe-cli and stub.so."""
    root = VERIF / ".build"
    root.mkdir(exist_ok=True)
    d = root / tree_hash()
    with open(root / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (d / "OK").exists():
            return d
        for old in root.iterdir():          # keep the cache small
            if old.is_dir() and old != d:
                shutil.rmtree(old)
        d.mkdir(exist_ok=True)
        env = {
            "PATH": f"{VENV}:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            "CC": str(VERIF / "harness" / "cc.sh"), "CXX": "g++", "PYTHONDONTWRITEBYTECODE": "1",
            "HOME": os.environ.get("HOME", "/root"), "LC_ALL": "C.UTF-8",
        }
        with open(d / "log", "w") as log:
            _run(["cmake", "-S", str(REPO), "-B", str(d / "cm"), "-G", "Ninja",
                  "-DCOFFE_ENABLE_TESTS=OFF", "-DCOFFE_ENABLE_PYTHON=ON", "-DCOFFE_ENABLE_MATHOPTS=ON",
                  f"-DPython_EXECUTABLE={VENV}/python", f"-DCYTHON_EXECUTABLE={VENV}/cython",
                  "-DCMAKE_POLICY_DEFAULT_CMP0116=NEW", "-DSKBUILD_PROJECT_VERSION=3.0.0",
                  "-DCMAKE_C_FLAGS=-Wno-error", "-DCMAKE_MODULE_LINKER_FLAGS=-Wl,-z,lazy",
                  f"-DCLASS_LIB={NOOP}", f"-DCUBA_LIB={NOOP}"], env, log)
            _run(["ninja", "-C", str(d / "cm"), "coffe", "coffe-cli"], env, log)
            stage = d / "stage" / "coffe"
            stage.mkdir(parents=True, exist_ok=True)
            for p in (REPO / "python" / "coffe").glob("*.py"):
                shutil.copy(p, stage)
            for p in (d / "cm" / "python" / "coffe").glob("coffe.cpython-*.so"):
                shutil.copy(p, stage)
            shutil.copy(d / "cm" / "coffe-cli", d / "coffe-cli")
            _run(["gcc", "-shared", "-fPIC", "-O2", "-w", "-std=gnu99", "-fopenmp",
                  f"-I{REPO}/src", str(VERIF / "harness" / "stub.c"), "-o", str(d / "stub.so"), "-lm"], env, log)
        shutil.rmtree(d / "cm")
        (d / "OK").write_text("ok\n")
    return d


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
