#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md (machinery), lib/props.py (what is run and watched), the notes below
(oracle, reach, limits) and the planted bugs under seeded/."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props

N = {}
N["C01"] = dict(oracle="""Every fiber counts its entry and its end and records thread, argument and result; every join counts and compares the result
it got with the one the fiber returned. Around switches an assembly probe fills the callee-saved registers (and x87/SSE control words) with
values and compares them on return; `mode=stack` fills frames of random depth with patterns and re-reads them after other fibers ran on their
own stacks (checked inside ASan with real stack bounds, and uninstrumented, where the real layouts are used). In `mode=wake` fibers suspend
themselves and are woken by direct switches, from the main fiber, by posts of other loops and threads, or have their result already; each wake-up's value,
loop and number is compared with what the waker gave.""",
  reach="the six tests start a handful of fibers on one loop; here ~10^4 fibers per run, all creation and join forms, ends racing joins on other loops.",
  limits="kfiber_ref_self(false) joins are used on one loop only; kfiber_join2 and kfiber_mutex_lock2 may be called by the main fiber only (from a posted call-back).")
N["C02"] = dict(oracle="""Admission counters per mutex (holders at the moment of the grant against the limit in force then), one grant per request, guarded user
data that TSan watches (`probe_*`), and in `mode=mutex1` an exact model of one loop that predicts the result of every try-lock. Lost hand-offs show as
a population that stops moving (watchdog; must repeat).""",
  reach="delays injected at every lock/unlock boundary of the library's own mutex open the windows between two loops that ordinary runs never hit.",
  limits="the order among waiters is LIFO and unspecified; raising the limit admits nobody until the next unlock.")
N["C03"] = dict(oracle="Occupancy of readers/writer at every admission, data guarded by the lock under TSan, one grant per request, everything released at the end and a fresh writer admitted.",
  reach="unlocks race admissions on other loops; a reader that releases at once on the waking thread is a scripted case.", limits="no fairness between readers and writers is claimed.")
N["C04"] = dict(oracle="""Every notification carries a unique value. Auto-reset: each value is consumed exactly once, counts of notifications and waits
balance, surplus is found by try-waits afterwards. Manual-reset: nobody returns before the first notification, everybody afterwards; a late wait gives
the latest value (exactly known when notifiers are quiet, one of the values so far while they run).""",
  reach="waits, call-back waits, thread-blocking waits and notifications from loops and raw threads at the same moment.",
  limits="the thread-blocking (sync) condition is a single-slot event; late waits on an auto-reset condition give an unspecified value.")
N["C05"] = dict(oracle="Tokens: each accepted item is received once, in its sender's order; results of both sides match; after close everybody is answered; the channel's memory is released once (allocation accounting).",
  reach="closing at every point of random programmes of several senders and receivers.", limits="channels belong to one loop (the TSan run uses several channels on two loops).")
N["C06"] = dict(oracle="""Run counters per job (once, right data, not on the submitting thread), occupancy against the limit, exact order for single-worker pools
(urgent first), exact refusal decisions while the only worker is held; thread starts fail at seeded points through a pthread_create stand-in; idle pool threads are
flushed; thread calls give their result on their own loop.""",
  reach="worker exits, failing starts and submissions meet at delayed lock boundaries; waiting submissions whose room is made only by a job that needs its submitter to go on.",
  limits="a job accepted while no thread can be started runs at the next submission.")
N["C07"] = dict(oracle="Delivery counters, loop thread identity, payload equality and visibility (TSan sees payload written unsynchronised before the post); loops block with no time-out, so only the post's own wake-up can deliver; FIFO fairness is judged by a bound on re-posts that may run before an older post; memory by the allocation balance. `boot` runs every case in a process of its own: call-backs and timers registered before, between and after creating and starting the loops, 1-64 loops, growing, thread call-backs, choice of idle loops.",
  reach="6 posters and re-posts between 8 loops, delays in the wake-up path.", limits="posts pending when a kasync_main loop ends are not run.")
N["C08"] = dict(oracle="Exact model of timers and ticks on a virtual clock, compared after every single turn of a loop that is stepped by hand; many-loop runs judged at quiet points (once, not early, order); the wall clock is set back at seeded points in both kinds; `boot` judges timers registered before the loops exist and the once-a-second hook.",
  reach="thousands of equal deadlines, delays of 0 ms to 25 days, timers added inside call-backs, ticks closing each other, set-backs on any loop.",
  limits="a forward jump of the clock fires timers (by design); a timer added on another loop between a set-back and its posted adjustment is shifted early.")
N["C09"] = dict(oracle="Each direction carries a position-dependent pattern; every read is compared byte by byte, buffers end at their allocation's end (ASan), totals and end-of-stream order are checked. recv/readv/writev stand-ins cut transfers to any size and inject would-block; raw socket pairs give half-close, reset and abort.",
  reach="every split of every operation kind with both directions running.", limits="a peer's half-close sets STF_ERR, later writes fail (design); EINTR on a stream socket is reported as an error.")
N["C10"] = dict(oracle="As C09, with a relay that re-cuts segments and scans the wire for application bytes, OpenSSL itself as an independent peer on either side, and handshakes that must fail (cut, flipped bit, untrusted, no common version, clear text).",
  reach="record and packet boundaries at every position, key updates, early data, resumption, HelloRetryRequest, both with socket and memory BIO builds.",
  limits="""harness restrictions that keep OpenSSL's own corner cases out: KeyUpdates with requested answer only when kasync's writer is done, none when kasync closes
first; server answer at most 4000 bytes on the early-data port; raw peers say goodbye after a kasync closer; a raw shutdown that OpenSSL refuses over its own half-written message
counts as truncation; the relay ends a flip that hit nothing vital after 1 s idle. TLS truncation is reported as end of stream; TLS 1.3 close with unread
tickets resets.""")
N["C11"] = dict(oracle="The expected byte log (range of the file, headers, order) is built from the files and the reported results and compared with what the peer got; positions after the transfer are compared with the model.",
  reach="sendfile stand-ins move any portion; peers stop, close, reset; TLS blocked in the middle of a piece; ranges around 2 and 4 GiB.",
  limits="this kernel has no kernel TLS: SSL_sendfile is a stand-in that writes the range through the session and keeps unfinished pieces.")
N["C12"] = dict(oracle="A synchronous twin: the same operation is done on an ordinary file with pread/pwrite and an own position model; results, contents and positions are compared. The AIO system calls are wrapped: refused submissions, short and failing results, events handed out a few at a time.",
  reach="reads, writes, appends, seeks, holes, direct I/O at every offset and length, many fibers on ranges of one file, files of 2-64 GiB that are mostly holes (compared page by page).",
  limits="""DSYNC is dropped for files that are also opened directly by others (the kernel's page-cache invalidation failure gives -EIO to such writers: was a false alarm of ours);
seekEnd is not supported by kfiber_file; one kfiber_file serves one operation at a time; kfiber_file_*_full is not usable in direct mode; more operations than the kernel
queue takes (about 382) are refused with -1; tell of an append file starts at 0.""")
N["C13"] = dict(oracle="Every datagram sent is recorded; each one read must be one of them with its source, destination, length and content and is struck off.",
  reach="all sizes and buffer shapes, two sockets on one port, broadcasts and groups, shut-down at any moment, failing reads.", limits="order between datagrams and SO_REUSEPORT sharing beyond own IPv4 addresses are not claimed.")
N["C14"] = dict(oracle="Each client's connection is counted at the accept path with addresses as the client sees them; a connect's result is compared with what the server side saw; descriptors, paths, ports and server references are back at the end.",
  reach="close from outside, from a loop and from an accept call-back, release and reopen at any moment, over 3 loops.",
  limits="an accept error such as EMFILE ends the listener (design); a connection accepted before the listeners are gone may be delivered just after; opening a unix server on several loops replaces the path per loop; a peer that hangs up at once may make connect report -1.")
N["C15"] = dict(oracle="Activity model on the virtual clock: for each waiting operation the earliest and latest turn at which it may time out; every result is explained either by the peer or by silence; buffers of timed-out operations are poisoned (their frames are gone). `boot` compares the periods of every loop after growing.",
  reach="clock moved to the edges of periods, periods of seconds to weeks, up to 300 extra periods, set-backs, reported time-outs, handshakes, files being sent.",
  limits="an operation completing at once, or started while another waits, does not restart the other's period; STF_RTIME_OUT only after the TLS handshake; a read with reported time-outs pending keeps a pending write from timing out; after a reported time-out the fiber reads on at once (or shuts down and reads).")
N["C16"] = dict(oracle="After warm-up the exact state (live blocks by size, descriptors, registrations, AIO contexts, threads) is recorded; after every round of activity it must be the same. OpenSSL's own blocks are judged by growth over repeats.",
  reach="failures injected at any step of any activity kind, loops started and ended in other threads, idle pool threads flushed.",
  limits="posts, timers and ticks left at the end of a loop and selector_manager_close are not claimed; direct-mode file writes must be aligned (the harness seeks first).")
N["C17"] = dict(oracle="A scripted resolver stands in for getaddrinfo/freeaddrinfo; an exact model of the cache on the virtual clock predicts for every lookup whether it is answered from the cache, shares a resolution or starts one, and with which answer; every answer handed out is freed once and not before.",
  reach="refresh against flush against pending lookups; stress with threads under TSan.",
  limits="failed lookups are cached as errors until refreshed; idle entries moved by refreshes may survive a flush a little longer; refresh answers for a flushed-and-pending name are discarded; setting the clock back delays refreshes; getaddrinfo maps v4-mapped IPv6 text for AF_INET.")
N["C18"] = dict(oracle="std::map as reference, full walk of links and colours, comparison counts against the red-black bound.", reach="10^5 operations over five key orders, removal while iterating.", limits="none beyond the sampled sequences.")
N["C19"] = dict(oracle="A byte deque as model, compared after every operation; blocks are separate allocations, so ASan sees any overrun and the accounting any double or missing free.", reach="every mix with chunk sizes 1-5000.", limits="krw_append of empty blocks or after an unfilled write buffer, and krw_read with an empty head, are outside the interface.")
N["C20"] = dict(oracle="A flat byte string; blocks end where their memory ends; all seek positions of each chain or vector.", reach="save points and growth at every fill level.", limits="none beyond the sampled programmes.")
N["C21"] = dict(oracle="Interval map of live blocks with content patterns, alignment of each, cleanup log, allocation balance.", reach="odd pool sizes, requests around block ends, arrays grown in place.", limits="kgl_array with n=0.")
N["C22"] = dict(oracle="Reference values; allocation balance; sums over threads; cells of one word with one writer each (an operation must leave its neighbours alone); TSan.", reach="embedded zeroes, empty strings, threads letting go at once.", limits="kgl_ref_str data is assumed NUL-terminated where C strings are wanted.")
N["C23"] = dict(oracle="Conservation of notifications and waits, bursts (several notices, several waiters), pulses (notice then reset), spurious wake-ups injected at every wait.", reach="spurious wake-ups and delays cannot be provoked by a test.", limits="one event belongs to threads, not fibers.")
N["C24"] = dict(oracle="Occupancy counters, torn-data check, scripted arrival orders that decide who may enter; TSan for data guarded by the lock (the lock's own edges come from its atomics).", reach="8 threads, both kinds.", limits="memory ordering is what x86 and TSan's model show.")
N["C25"] = dict(oracle="ThreadSanitizer (happens-before, with fiber switches made known) over all activities at once; ASan/UBSan and BIO builds for the rest; every operation is counted in and out.",
  reach="all cross-thread operations meeting each other under delays.",
  limits="loosely read hints are in lib/tsan.supp with reasons: thread ids of loops are published by polling at start-up; selector_manager_adjust_time is used by one thread at a time, selector_manager_set_timeout and grow before start. libcrypto is uninstrumented.")
N["C26"] = dict(oracle="Certificate, version and protocol seen at both ends against a model of the settings in force when the connection was accepted; context life counters; allocation balance and injected allocation failures; all version sets against all client ranges.",
  reach="settings replaced from several threads while clients connect and the server closes and reopens.",
  limits="a set concurrent with kserver_open is not exercised; version holes where OpenSSL clients refuse a downgrade are left open; client contexts keep a bounded session cache; kgl_new_ssl_ctx leaves alpn/flags to its user; a failing cipher list leaves OpenSSL's TLS 1.3-only list; clients resume only with the same name.")
N["C27"] = dict(oracle="Watch, removal and hang-up order per connection; told once, on its loop, not before, not after removal or replacement; streams byte-exact afterwards.",
  reach="hang-up by half-close, close and reset before, during and after every operation; connections closed right after a removal.",
  limits="TLS connections and own shutdown while watched are not exercised; a watch is removed before closing (assertion otherwise); watches have no time-outs.")
N["C28"] = dict(oracle="inet_pton/inet_ntop, getsockopt/fcntl/getsockname as oracle; exact-size buffers under ASan; pairwise order laws; failing system steps must leave no descriptor.",
  reach="extreme and random addresses, all mask lengths, every flag combination.", limits="ksocket_unix_addr of a path that fills the address leaves no NUL.")

CATCH = {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    CATCH.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m["needs"]))

P = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    P[p["id"]] = p

out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties", "",
       "All properties are decided by runtime monitoring at level `exploration`: what was observed held; none is proved. None is not applicable.",
       "Quick checks take 10-60 s each on 8 cores, thorough ones run the same workloads twelve times as long. `VERIF_SEED` selects the executions.", ""]
def flat(s): return " ".join(s.split())
for pid in sorted(P):
    pr = props.PROPS[pid]
    n = N[pid]
    rs = props.runs(pid, "quick")
    out += ["### %s %s" % (pid, P[pid]["title"]), "",
            "*Monitor*: %s." % pr["technique"], "",
            "*Workload*: %s Runs (quick): %s." % (pr["level_note"], ", ".join("%s ×%d" % (r["name"], r["cases"]) for r in rs)), "",
            "*Oracle*: %s" % flat(n["oracle"]), "",
            "*Counted*: %s. The check answers 2 (no verdict) when fewer than these were seen: %s." % (pr["rule"], ", ".join("%s %d" % kv for kv in pr["min"].items())), "",
            "*Why beyond the tests*: %s" % flat(n["reach"]), "",
            "*Not claimed*: %s" % flat(n["limits"]), ""]
    if pid in CATCH:
        out += ["*Planted bugs caught by this check*: %s." % "; ".join("`%s` (%s)" % c for c in CATCH[pid]), ""]
out += [open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
