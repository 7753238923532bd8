#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from spec/."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import PROPS, NOT_APPLICABLE, NOTES   # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": p["anchors"]}) + "\n")
        assert len(p["title"]) <= 80, p["id"]

checks = []
for p in PROPS:
    if p.get("fn"):
        c = {"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
             "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
             "technique": p["technique"], "level": "other",
             "level_note": p["note"]}
        checks.append(c)
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
ids = {p["id"] for p in PROPS}
na = {x["property"] for x in NOT_APPLICABLE}
assert na <= ids
assert {p["id"] for p in PROPS if not p.get("fn")} == na, \
    ({p["id"] for p in PROPS if not p.get("fn")} ^ na)
print(len(PROPS), "properties,", len(checks), "checks")

# DESIGN.md
def wrap(t, ind=""):
    import textwrap
    return textwrap.fill(" ".join(t.split()), 79, initial_indent=ind,
                         subsequent_indent=ind)


def section(p):
    out = ["### %s  %s" % (p["id"], p["title"]), "", wrap(p["statement"]), ""]
    out += [wrap("*Quantified over*: " + p["quant"] + "."), ""]
    if p.get("fn"):
        out += [wrap("*Decided by* `rules/%s.py` (`%s`): %s." % (
            p["fn"].split(".")[0], p["fn"].split(".")[1], p["technique"])),
            "", wrap(p["explanation"]), "",
            wrap("*Why tests cannot*: " + p["why"]), "",
            wrap("*Limits*: " + p["note"]), ""]
    else:
        out += [wrap("*Not applicable*: " + p["na"]), ""]
    return out


props = []
for p in PROPS:
    props += section(p)
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
fixed = []
for x in kf["fixed"]:
    w = x.split(" ", 3)
    fixed.append("* %s `%s`: %s" % (w[1].split("=")[1], w[2], w[3]))
seeds = ["| bug | property | caught by | what it breaks | needs |",
         "|---|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
if os.path.isdir(sd):
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        seeds.append("| %s | %s | %s | %s | %s |" % (
            n, m["property"], m.get("caught_by", m["property"]),
            m["what_it_breaks"], m["needs"]))
    t = open(os.path.join(HERE, "spec", "design.md")).read()
    for k, v in (("PROPERTIES", props), ("FIXED", fixed), ("SEEDS", seeds)):
        t = t.replace("@%s@" % k, "\n".join(v).strip())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)
