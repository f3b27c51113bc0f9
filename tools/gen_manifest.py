#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(props, "NA", {})
m = dict(version=1, setup_cmd="python3 tools/simbuild.py",
  hooks=dict(guard="JUNGLE_SIM", enable="tools/simbuild.py compiles /repo/src with -DJUNGLE_SIM=1 (no hook uses it yet: threads, clocks, allocation and system calls are intercepted at link time)", source_commits=getattr(props, "HOOK_COMMITS", [])),
  checks=[dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
     technique="deterministic simulation with fault injection: seeded search over schedules, I/O faults and crash points (%s)" % ", ".join(w for w, _ in props.PROPS[i]["worlds"]),
     level="exploration", level_note=props.PROPS[i]["rule"]) for i in ids if i in props.PROPS],
  not_applicable=[dict(property=i, reason=NA.get(i, "its simulated world is still being built")) for i in ids if i not in props.PROPS],
  notes="See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
