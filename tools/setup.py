#!/usr/bin/env python3
"""setup_cmd: build every harness variant once (the checks rebuild what changed)."""
import os, sys, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build, props
t = time.time()
todo = sorted(set((r["variant"], r["harness"]) for p in props.PROPS for r in props.runs(p, "quick")))
for v in sorted(set(v for v, _ in todo)):
    build.lib_objects(v)
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda vh: build.harness(*vh), todo))
print("built %d harness binaries in %.0fs" % (len(todo), time.time() - t))
