#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, TECH, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    cfgs = sorted({r.get("config", "-") for r in PROPS[i]["runs"]})
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i,
        thorough_cmd="python3 bin/check.py %s thorough" % i, technique=TECH[i],
        level=PROPS[i].get("level", "exploration"), level_note=NOTES[i]))
m = dict(version=1, setup_cmd="python3 bin/build.py", checks=checks,
    not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE],
    notes="Each check rebuilds /repo's current tree itself (cache in /verif/build, keyed by content). No hooks are compiled into /repo: the monitors use public entry points, the output/sink/executor callbacks, guard pages, allocator interposition and sanitizers. Reproduce a violation with `python3 bin/check.py --replay <path>`. known_findings.json lists repaired defects.")
missing = [i for i in ids if i not in PROPS and i not in dict(NOT_APPLICABLE)]
assert not missing, missing
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
