#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="KASYNC_VERIF", enable="no source hook is needed: the checks build /repo's sources as they are and interpose on system calls and the context switch with the linker's --wrap", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                      evidence_file="evidence/%s.json" % i, technique=props.PROPS[i]["technique"], level=props.PROPS[i]["level"], level_note=props.PROPS[i]["level_note"]) for i in ids if i in props.PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
