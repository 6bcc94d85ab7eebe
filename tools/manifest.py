#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks there are."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
import props

T = "TLA+ model checked with TLC; every transition and random histories replayed on the real code, each recorded step judged by TLC with the property's predicate (trace validation)"
NOTE = ("Exhaustive on the small models; on the implementation: all maximal scripts of the model up to the stated depth plus seeded "
        "random histories, every operation judged against the specification. Trusted: TLC, the executor (reads only exported API), "
        "integer valued sizes/times so that the floating point figures are exact; no claim beyond the executed histories.")
TECH = {}
NOTES = {}
try:
    from manifest_texts import TECH, NOTES
except ImportError:
    sys.path.insert(0, os.path.join(H, "tools"))
    try:
        from manifest_texts import TECH, NOTES
    except ImportError:
        pass
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 checks/run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, T), level="model_checking", level_note=NOTES.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="bash checks/setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. No hooks in /repo: the executor is added to the module by a go build overlay and uses the exported API. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
