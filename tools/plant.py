#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy and stores it under /verif/seeded/<id>.

usage: plant.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ text), optional libs, timeout)"""
import os, sys, subprocess, shutil, json, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds demo.cc against the repository's library and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -g -w -I"$R/include" -I"$R/fcontext/src" "$D/demo.cc" "$R/_build/libkasync.a" $(find "$R/_build" -name "*.a" ! -name libkasync.a ! -name "libgtest*" ! -name "libgmock*") %s -lssl -lcrypto -lpthread -ldl -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def edit(path, old, new):
    s = open(path, "rb").read().decode("latin1")
    if s.count(old) != 1:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    open(path, "wb").write(s.replace(old, new).encode("latin1"))
def build(w):
    r = sh("cp /opt/vp/build.sh %s.sh; sed -i 's#/repo#%s#g' %s.sh; bash %s.sh" % (w, w, w, w))
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def tests(w):
    r = sh("python3 /opt/vp/run_tests.py %s/_build/kasync_fiber_test $(mktemp -d)" % w)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in base if "PASS %s " % t not in r.stdout + " "]
def demo(w, d, n=1):
    out = []
    for _ in range(n):
        r = sh("timeout 300 bash %s/demo.sh" % d, cwd=w)
        out.append((r.returncode, r.stdout.strip().splitlines()[-1:]))
    return out
def main():
    sp = runpy.run_path(sys.argv[1])
    d = os.path.join(V, "seeded", sp["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.cc", "w").write(sp["demo"])
    shutil.copy(V + "/tools/dx.h", d)
    for f in sp.get("files", []): shutil.copy(f, d)
    open(d + "/demo.sh", "w").write(DEMO % sp.get("libs", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    w = "/tmp/sw-%s" % sp["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s; rm -rf %s/_build" % (w, w))
    ok = False
    try:
        if not build(w): return print("unpatched build failed")
        a = demo(w, d, 3)
        for f, o, n in sp["edits"]: edit(os.path.join(w, f), o, n)
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        if not build(w): return print("patched build failed")
        bad = tests(w)
        b = demo(w, d, 3)
        print(sp["id"], "clean:", a, "\npatched:", b, "\nfailing tests:", bad)
        c = sh("git apply --check %s/patch.diff" % d, cwd="/repo")
        if c.returncode: print("does not apply:", c.stdout)
        # the changed lines must be original ones
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[-1]
        ok = all(x[0] == 0 for x in a) and all(x[0] != 0 for x in b) and not bad and not c.returncode
        print("KEEP" if ok else "REJECT")
    finally:
        shutil.rmtree(w, ignore_errors=True)
        if os.path.exists(w + ".sh"): os.unlink(w + ".sh")
        if not ok: print("rejected; files left in", d)
main()
