"""Collects the obligations of one property and turns them into a verdict."""
import json
import os
import time

from .build import VERIF, AnalysisError


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []
        self.viol = []
        self.analysed = {}
        self.notes = []

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def ob(self, rule, what, ok, where="", detail=""):
        """One discharged or failed obligation."""
        self.obs.append((rule, what, bool(ok)))
        if not ok:
            self.viol.append(dict(rule=rule, what=what, where=where,
                                  detail=detail))
        return bool(ok)

    def count(self, key, n=1):
        self.analysed[key] = self.analysed.get(key, 0) + n

    def fn(self, f):
        self.analysed.setdefault("functions_list", set()).add(f.name)

    def finish(self, meta, known):
        fl = sorted(self.analysed.pop("functions_list", set()))
        rules = {}
        for r, w, ok in self.obs:
            x = rules.setdefault(r, [0, 0])
            x[0] += 1
            x[1] += ok
        known_hit, new = [], []
        for v in self.viol:
            k = match_known(known, self.pid, v)
            (known_hit if k else new).append((v, k))
        cov = {
            "explanation": meta["explanation"],
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o[2]),
            "rules": {r: {"obligations": x[0], "discharged": x[1]}
                      for r, x in sorted(rules.items())},
            "functions_analysed": len(fl),
            "functions": fl[:60],
            "samples": [{"rule": r, "obligation": w, "ok": ok}
                        for r, w, ok in self.obs[:12]],
        }
        for k, v in self.analysed.items():
            cov[k] = v
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": cov,
            "assumptions": meta.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as fo:
            json.dump(ev, fo, indent=1)
            fo.write("\n")
        return known_hit, new


def match_known(known, pid, v):
    for k in known:
        if k.get("status") == "known" and k["property"] == pid and \
           k["rule"] == v["rule"] and k["what"] == v["what"]:
            return k
    return None
