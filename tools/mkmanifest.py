#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, TECHNIQUE, LEVEL, NOTE, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -c 'import checks'", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=TECHNIQUE[i], level=LEVEL.get(i, "exploration"), level_note=NOTE[i]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not claimed yet: its check is still being built")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
