#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and meta.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
V = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hook_commits = meta.HOOK_COMMITS
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta.PROPS:
        m = meta.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": m.get("technique", meta.TECHNIQUE),
            "level": "exploration",
            "level_note": m["note"] if "note" in m else meta.NOTE + " " + m["rule"],
        })
    else:
        na.append({"property": i, "reason": meta.NOT_APPLICABLE[i]})
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "TIRO_SIM_HOOKS",
              "enable": "tools/build.py compiles /repo/src itself with -DTIRO_SIM_HOOKS; without the define the hooks do not exist",
              "source_commits": hook_commits},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks share one simulator (build/sim/tirosim) that tools/build.py builds from /repo's working tree. "
             "A replay file is replayed with: python3 tools/check.py --replay FILE",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
