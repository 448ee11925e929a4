"""What every check shares: the run's context, evidence, verdicts, known findings."""
import json
import os
import pathlib
import sys
import time

import build as builder

VERIF = pathlib.Path(__file__).resolve().parent.parent


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.build = str(builder.build())
        self.coverage = {}
        self.assumptions = []
        self.violations = []          # dicts, each with "what"
        self.known = {}               # key -> description, seen in this run
        self.findings = [f for f in json.load(open(VERIF / "known-findings.json"))["findings"] if f["property"] == pid]
        self.samples = []

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def violation(self, what, **detail):
        self.violations.append({"what": what, **detail})

    def finding(self, key):
        """Is this failure listed as a known finding?  Marks it as seen."""
        for f in self.findings:
            if f["key"] == key:
                self.known[key] = f["what"]
                return True
        return False

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def finish(self, level):
        self.coverage.setdefault("samples", self.samples or [self.pid])
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": self.seed, "level": level,
              "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k, w in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.violations:
            r = VERIF / "out"
            r.mkdir(exist_ok=True)
            path = r / f"{self.pid}.json"
            path.write_text(json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier,
                                        "violations": self.violations[:50]}, indent=1, default=str) + "\n")
            for v in self.violations[:10]:
                print("  " + v["what"][:600], file=sys.stderr)
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        print(f"{self.pid}: held ({', '.join(f'{k}={v}' for k, v in self.coverage.items() if isinstance(v, (int, float)))})", flush=True)
        return 0
