#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in mon/props."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = "Held on the executions generated and observed by this run (counts in the evidence file), not beyond them; trusts the reference semantics in mon/ref.py and the monitor's observation points (public event stream, buffers and memories read after every kernel step)."
TECH = "runtime monitoring: {}"
checks, na = [], []
for p in props:
    f = os.path.join(here, "mon", "props", p["id"].lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r'^TECHNIQUE = "(.*)"', src, re.M)
        n = re.search(r'^LEVEL_NOTE = "(.*)"', src, re.M)
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {p['id']}",
                       "technique": TECH.format(m.group(1) if m else "recorded histories of random workloads checked by a reference-model oracle"),
                       "level": "exploration", "level_note": (n.group(1) + " " if n else "") + NOTE})
    else:
        na.append({"property": p["id"], "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import simpy, numpy, pyparsing'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is observed through public attributes and by subclassing in the harness (mon/obs.py, mon/boot.py)."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
