"""Builds harness binaries from /repo's current working tree (offline, cached by content)."""
import os, sys, hashlib, subprocess, glob, shutil, fcntl, re, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KASYNC_REPO", "/repo")
BUILD = os.environ.get("KASYNC_VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = os.cpu_count() or 4

CONFIG_ON = ["KSOCKET_SSL", "LINUX", "HAVE_ACCEPT4", "HAVE_MEMALIGN", "HAVE_SETMNTENT",
             "HAVE_WRITEV", "HAVE_READV", "ENABLE_FCONTEXT"]
COMMON = ["-std=gnu++14", "-g", "-fno-omit-frame-pointer", "-w", "-fno-strict-aliasing"]
SAN_UB = "-fsanitize=address,undefined"
VARIANTS = {
    # name: (flags for /repo and harness code, flags for the monitor's own code, config additions, wrap fcontext)
    "asan": (["-O1", SAN_UB, "-fno-sanitize-recover=all", "-DMON_ASAN"], ["-O1", "-DMON_ASAN"], [], True),
    "tsan": (["-O1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-DMON_TSAN"], ["-O1", "-DMON_TSAN"], [], True),
    "plain": (["-O1"], ["-O1"], [], False),
    "rel": (["-O2", "-DNDEBUG"], ["-O2"], [], False),
    "bio": (["-O1", SAN_UB, "-fno-sanitize-recover=all", "-DMON_ASAN"], ["-O1", "-DMON_ASAN"], ["ENABLE_KSSL_BIO"], True),
}
WRAPS = ["malloc", "calloc", "realloc", "free", "memalign", "posix_memalign", "strdup",
         "readv", "writev", "recv", "send", "sendfile", "sendfile64", "recvmsg", "sendmsg",
         "accept4", "accept", "close", "epoll_wait", "epoll_ctl", "gettimeofday", "time", "clock_gettime",
         "pthread_create", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_kill", "sigwait", "pthread_cond_wait", "getaddrinfo", "freeaddrinfo", "syscall"]
MON_SRC = ["mon.cc", "wraps.cc", "ctx.cc", "tsanv.cc"]


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def make_config(extra):
    on = set(CONFIG_ON) | set(extra)
    out = []
    for line in open(os.path.join(REPO, "include/kasync_config.h.in"), errors="replace"):
        m = re.match(r"\s*#cmakedefine\s+(\w+)", line)
        if m:
            out.append("#define %s\n" % m[1] if m[1] in on else "/* #undef %s */\n" % m[1])
        else:
            out.append(line)
    return "".join(out)


def repo_inputs():
    fs = []
    for pat in ("src/*.c", "src/*.h", "include/*.h", "include/*.in", "fcontext/src/*", "fcontext/src/asm/*x86_64_sysv_elf*"):
        fs += [f for f in glob.glob(os.path.join(REPO, pat)) if os.path.isfile(f)]
    return sorted(f for f in fs if not f.endswith("kasync_config.h"))


def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _prune(dirname, keep):
    try:
        ds = sorted((os.path.getmtime(os.path.join(dirname, d)), d) for d in os.listdir(dirname) if not d.endswith(".tmp"))
    except OSError:
        return
    for _, d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(os.path.join(dirname, d), ignore_errors=True)


def lib_objects(variant):
    """Compile the library and monitor code of a variant; returns the directory of objects."""
    flags, monflags, cfg, _ = VARIANTS[variant]
    libdir = os.path.join(VERIF, "lib")
    monfiles = [os.path.join(libdir, f) for f in MON_SRC + ["mon.h"]]
    key = digest(repo_inputs() + monfiles, (flags, monflags, cfg, COMMON))
    vdir = os.path.join(BUILD, variant)
    os.makedirs(vdir, exist_ok=True)
    out = os.path.join(vdir, key)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            os.utime(out)
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "cfg"))
        with open(os.path.join(out, "cfg", "kasync_config.h"), "w") as f:
            f.write(make_config(cfg))
        inc = include_flags(out)
        jobs = []
        for f in sorted(glob.glob(os.path.join(REPO, "src/*.c"))):
            o = os.path.join(out, "k_" + os.path.basename(f)[:-2] + ".o")
            jobs.append(["g++", "-x", "c++"] + COMMON + flags + inc + ["-c", f, "-o", o])
        fdef = ["-DBOOST_CONTEXT_EXPORT=", "-DBOOST_CONTEXT_STATIC_LINK="]
        for a in ("make", "jump", "ontop"):
            f = os.path.join(REPO, "fcontext/src/asm/%s_x86_64_sysv_elf_gas.S" % a)
            jobs.append(["gcc"] + fdef + ["-c", f, "-o", os.path.join(out, "f_%s.o" % a)])
        for f in MON_SRC:
            p = os.path.join(libdir, f)
            jobs.append(["g++"] + COMMON + monflags + ["-I", libdir, "-c", p, "-o", os.path.join(out, "m_%s.o" % f[:-3])])
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(sh, jobs))
        open(os.path.join(out, "ok"), "w").close()
        _prune(vdir, 3)
    return out


def include_flags(out):
    return ["-include", os.path.join(out, "cfg", "kasync_config.h"), "-I", os.path.join(out, "cfg"),
            "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "fcontext/src"), "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness")]


def harness(variant, name):
    """Build harness/<name>.cc in a variant; returns the path of the binary."""
    flags, _, cfg, wrapctx = VARIANTS[variant]
    objs = lib_objects(variant)
    src = os.path.join(VERIF, "harness", name + ".cc")
    hs = sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))
    key = digest([src] + hs, (objs, flags, WRAPS))
    exe = os.path.join(objs, "%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    o = exe + ".o"
    tmp = exe + ".tmp%d" % os.getpid()
    sh(["g++", "-x", "c++"] + COMMON + flags + include_flags(objs) + ["-c", src, "-o", o + str(os.getpid())])
    own = re.search(r"(?m)^// WRAP: (.*)$", open(src).read())
    wraps = WRAPS + (own[1].split() if own else []) + (["jump_fcontext", "make_fcontext"] if wrapctx else [])
    skip = [] if wrapctx else ["m_ctx.o"]
    san = [f for f in flags if f.startswith("-fsanitize")]
    link = ["g++"] + san + ["-rdynamic", "-o", tmp, o + str(os.getpid())] + \
        sorted(p for p in glob.glob(os.path.join(objs, "[kfm]_*.o")) if os.path.basename(p) not in skip) + \
        ["-Wl,--wrap=" + w for w in wraps] + ["-lssl", "-lcrypto", "-lpthread", "-ldl"]
    sh(link)
    os.remove(o + str(os.getpid()))
    os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    for v, n in [a.split(":") for a in sys.argv[1:]]:
        print(harness(v, n), "%.1fs" % (time.time() - t))
