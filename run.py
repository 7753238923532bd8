#!/usr/bin/env python3
"""Static checks for acts-project/vecmem.  Usage: run.py PROPERTY | all"""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vp import build                      # noqa: E402
from vp.report import Report, match_known              # noqa: E402
from rules import REGISTRY                # noqa: E402


class Ctx:
    """Lazily computed program facts, shared by the rules of one run."""

    def __init__(self, work, report, tier):
        self.work = work
        self.R = report
        self.tier = tier
        self._c = {}

    def core(self, **kw):
        k = "core" + json.dumps(kw, sort_keys=True, default=str)
        if k not in self._c:
            p, n = build.core(self.work, **kw)
            self._c[k] = p
            self.R.analysed["translation_units"] = n
        return self._c[k]

    def unit(self, name, **kw):
        k = (name, json.dumps(kw, sort_keys=True, default=str))
        if k not in self._c:
            self._c[k] = build.unit(self.work, name, **kw)
            self.R.count("translation_units")
        return self._c[k]


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def run(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn, meta = REGISTRY[pid]
    R = Report(pid, tier, seed)
    try:
        with build.Work() as w:
            ctx = Ctx(w, R, tier)
            getattr(importlib.import_module("rules." + mod), fn)(ctx)
        if not R.obs:
            raise build.AnalysisError("no obligation was generated")
        if len(R.obs) < meta.get("min", 1) and not R.viol:
            raise build.AnalysisError(
                "only %d obligations (expected at least %d)" %
                (len(R.obs), meta["min"]))
    except Exception as e:
        print("ANALYSIS-ERROR: property=%s %s" % (pid, e))
        if not isinstance(e, build.AnalysisError):
            traceback.print_exc(file=sys.stdout)
        if all(match_known(known(), pid, v) for v in R.viol):
            return 2
        # obligations which failed before count all the same
    hit, new = R.finish(meta, known())
    print("%s: %d obligations, %d discharged" %
          (pid, len(R.obs), sum(1 for o in R.obs if o[2])))
    for v, k in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["summary"]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("rule: %s\nobligation: %s\nat: %s\n%s\n\n" %
                        (v["rule"], v["what"], v["where"], v["detail"]))
        for v, _ in new:
            print("  [%s] %s\n    at %s\n    %s" %
                  (v["rule"], v["what"], v["where"],
                   v["detail"].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "setup":
        build.tool()
        sys.exit(0)
    ids = sorted(REGISTRY) if sys.argv[1] == "all" else sys.argv[1:]
    rc = 0
    for i in ids:
        r = run(i)
        rc = max(rc, r) if r != 1 or rc != 2 else rc
    sys.exit(rc)
