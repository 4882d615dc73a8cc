#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N]

Builds the harnesses of one property from /repo's working tree, runs them, judges what their
monitors and the sanitizers observed, and writes evidence/<property>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no verdict.
"""
import os, sys, re, json, time, subprocess, signal, hashlib, shlex, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, props


def known_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                keys[m[2]] = m[3]
    return keys


FRAME = re.compile(r"^\s*#\d+\s+(?:0x[0-9a-f]+ in )?([A-Za-z_~][\w:~<>, ]*?)(?:\(.*\))?\s+(\S+?)(?::(\d+))?(?::\d+)?(?: \(.*\))?$", re.M)


def frames(text, n=3, paths=False):
    out = []
    for m in FRAME.finditer(text):
        fn, path = m[1].strip(), m[2]
        if "libsanitizer" in path or fn.startswith(("__interceptor", "__asan", "__tsan", "__wrap_", "__real_", "std::", "malloc", "free", "calloc", "realloc", "operator")):
            continue
        out.append((fn, path) if paths else fn)
        if len(out) >= n:
            break
    return out


def crash_keys(run, rc, err):
    """Stable keys for what the sanitizers, asserts or signals say."""
    ks = []
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        fr = frames(err[m.start():], 1)
        ks.append(("asan:%s:%s" % (m[1], fr[0] if fr else "?"), err[m.start():m.start() + 3000]))
    for m in re.finditer(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m[3])[:70]
        ks.append(("ubsan:%s:%s" % (os.path.basename(m[1]), re.sub(r"\W+", "-", msg)), err[m.start():m.start() + 1500]))
    for blk in re.split(r"(?m)^={10,}$", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", blk)
        if not m:
            continue
        # a report counts when one side of it is in the code under test (or in a declared probe),
        # not when both sides are the harness' own bookkeeping, whose locks the detector is not shown
        parts = re.split(r"(?m)^  (?:Previous|[A-Z]\w+ (?:read|write)|Read|Write|Atomic|As if|Mutex)", blk)
        fr, mine = [], False
        for p in parts[1:3]:
            f = frames(p, 1, True)
            if f:
                fr.append(f[0][0])
                mine = mine or f[0][1].startswith(build.REPO + "/") or f[0][0].startswith("probe_")
        if not mine and m[1].strip() == "data race":
            continue
        ks.append(("tsan:%s:%s" % (re.sub(r"\W+", "-", m[1].strip()), "+".join(sorted(set(fr))) or "?"), blk[:3500]))
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m:
        ks.append(("assert:%s" % re.sub(r"\s+", "", m[1])[:80], err[max(0, m.start() - 300):m.end() + 300]))
    if not ks and rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        ks.append(("signal:%s" % name, err[-1500:]))
    return ks


class Result:
    pass


def execute(exe, run, seed, tier, tmp):
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1",
        "UBSAN_OPTIONS": "print_stacktrace=1",
        "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "lib/tsan.supp"),
        "TMPDIR": tmp,
    })
    cmd = [exe, "--seed=%d" % seed, "--tier=%s" % tier, "--cases=%d" % run["cases"], "--tmp=" + tmp] + ["--%s" % a for a in run.get("args", [])]
    r = Result()
    r.cmd = cmd
    r.run = run
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        out, err = p.communicate(timeout=run.get("timeout", 150))
        r.timeout = False
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    r.wall = time.time() - t0
    r.rc = p.returncode
    r.out = out.decode("utf-8", "replace")
    r.err = err.decode("utf-8", "replace")
    r.viol = []
    for m in re.finditer(r"(?m)^@@V ([^|]+)\|(.*)$", r.out):
        r.viol.append((m[1].strip(), m[2]))
    r.hang = re.search(r"(?m)^@@H (.*)$", r.out)
    r.error = re.search(r"(?m)^@@E (.*)$", r.out)
    r.end = "@@END" in r.out
    m = re.search(r"(?m)^@@S (\{.*\})$", r.out)
    r.stats = json.loads(m[1]) if m else None
    r.viol += crash_keys(run, r.rc, r.err)
    if not r.end and not r.hang and not r.error and not r.timeout and not r.viol:
        r.viol.append(("exit:%s" % r.rc, "process ended without a verdict, rc=%s\n%s" % (r.rc, r.err[-1500:])))
    r.key_prefix = run["name"]
    return r


def one(pid, i, run, seed, tier, scratch):
    """Run once; a hang is run again before it counts."""
    exe = build.harness(run["variant"], run["harness"])
    s = seed * 1000003 + i * 7919 + 17
    s &= 0x7fffffff
    hangs = []
    for attempt in range(2):
        tmp = tempfile.mkdtemp(prefix="r%d-" % i, dir=scratch)
        os.chmod(tmp, 0o777)
        r = execute(exe, run, s, tier, tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        if (r.hang or r.timeout) and not r.viol:
            hangs.append(r)
            if len(hangs) == 2:
                r.viol.append(("hang", (r.hang[1] if r.hang else "no end within %ss" % run.get("timeout", 150)) + " (twice)"))
                return r
            continue
        return r
    return r


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    only = None
    while len(a) > 1:
        o = a.pop(1)
        if o == "--tier":
            tier = a.pop(1)
        elif o == "--seed":
            seed = int(a.pop(1))
        elif o == "--only":
            only = a.pop(1)
    P = props.PROPS[pid]
    t0 = time.time()
    runs = props.runs(pid, tier)
    if only:
        runs = [r for r in runs if re.search(only, r["name"])]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        for v in sorted(set(r["variant"] for r in runs)):
            build.lib_objects(v)
        todo = sorted(set((r["variant"], r["harness"]) for r in runs))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda vh: build.harness(*vh), todo))
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        sys.exit(2)
    scratch = tempfile.mkdtemp(prefix="kasync-verif-")
    os.chmod(scratch, 0o755)
    par = P.get("parallel", 4)
    try:
        with ThreadPoolExecutor(par) as ex:
            results = list(ex.map(lambda ir: one(pid, ir[0], ir[1], seed, tier, scratch), list(enumerate(runs))))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(pid)
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    evals, sigs, counters, samples = 0, set(), {}, []
    bad, found, errors, extra_distinct = [], {}, [], 0
    for r in results:
        if r.stats:
            evals += r.stats["evaluations"]
            sigs |= set((r.run["harness"], r.run.get("sigspace", r.run["name"]), x) for x in r.stats["sigs"])
            extra_distinct += max(0, r.stats["distinct"] - len(r.stats["sigs"]))
            for k, v in r.stats["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for s in r.stats["samples"][:3]:
                samples.append("[%s] %s" % (r.run["name"], s))
        if r.error:
            errors.append("%s: %s" % (r.run["name"], r.error[1]))
        for key, detail in r.viol:
            fk = key if key.startswith(("asan:", "ubsan:", "tsan:", "assert:")) else "%s:%s" % (r.run["name"], key)
            fk = re.sub(r"\s+", "_", fk)
            if fk in known:
                found[fk] = known[fk]
            else:
                bad.append((fk, detail, r))
    for k, w in sorted(found.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, w, k))
    rc = 0
    shown = set()
    for fk, detail, r in bad:
        if fk in shown:
            continue
        shown.add(fk)
        path = os.path.join(rep, "%s-%s.txt" % (pid, hashlib.sha1(fk.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property %s\nkey %s\nseed %d tier %s\ncommand %s\n\n%s\n\n--- stdout (tail)\n%s\n--- stderr (tail)\n%s\n" % (
                pid, fk, seed, tier, " ".join(map(shlex.quote, r.cmd)), detail, r.out[-6000:], r.err[-20000:]))
        print("  what: %s: %s" % (fk, detail.strip().replace("\n", " | ")[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    minc = P.get("min", {})
    if rc == 0 and not only:
        for k, v in minc.items():
            have = evals if k == "evaluations" else counters.get(k, 0)
            if have < v:
                errors.append("observed too little: %s=%d < %d" % (k, have, v))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs) + extra_distinct, "rule": P["rule"],
            "samples": samples[:12] or ["(none)"], "observed": dict(sorted(counters.items())),
            "runs": [{"name": r.run["name"], "variant": r.run["variant"], "harness": r.run["harness"], "cases": r.run["cases"], "wall_s": round(r.wall, 2),
                      "evaluations": (r.stats or {}).get("evaluations", 0), "ended": bool(r.end)} for r in results],
            "inconclusive": errors,
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(shown),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d executions, %d distinct, %d run(s), %.1fs%s" % (
        pid, tier, seed, evals, ev["coverage"]["distinct_nontrivial"], len(results), time.time() - t0,
        "" if not errors else "  ERRORS: " + "; ".join(errors)[:1500]))
    if rc:
        sys.exit(rc)
    sys.exit(2 if errors else 0)


if __name__ == "__main__":
    main()
