#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that are registered."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import core, checks, notes
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="Go build tag 'verif' (hook_verif.go / hook_off.go)",
                    enable="go build -tags verif of /verif/harness/drv in a workspace that uses /repo's modules",
                    source_commits=["9fe66a0", "dbd27fa"]),
         checks=[], not_applicable=[])
for p in props:
    if p in core.CHECKS:
        f, level, rule = core.CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=notes.TECH[p], level=level, level_note=notes.NOTE[p]))
    else:
        m["not_applicable"].append(dict(property=p, reason="check under construction"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
