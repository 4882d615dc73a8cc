"""The checks: per property, how it is decided and which runs (variant, harness, workload) decide it."""

EXPL = "exploration"
TRUST = ["the monitor library (lib/mon.cc) and the stand-ins for system calls (lib/wraps.cc)",
         "gcc 13 sanitizer runtimes; executions are those the workloads, seeds and injected delays produced"]
PROPS = {}
RUNS = {}


def prop(pid, technique, note, rule, minimum, assumptions=(), parallel=7):
    PROPS[pid] = dict(technique=technique, level=EXPL, level_note=note, rule=rule, min=minimum,
                      assumptions=TRUST + list(assumptions), parallel=parallel)

    def deco(fn):
        RUNS[pid] = fn
        return fn
    return deco


def run(variant, harness, cases, *args, name=None, timeout=200):
    mode = next((a.split("=")[1] for a in args if a.startswith("mode=")), harness)
    extra = "-".join(a.split("=")[1] for a in args if a.startswith(("loops=", "v=")))
    return dict(name=name or "%s.%s%s" % (mode, variant, "-" + extra if extra else ""), variant=variant, harness=harness,
                cases=cases, args=list(args), timeout=timeout)


def runs(pid, tier):
    k = 1 if tier == "quick" else 12
    rs = RUNS[pid](k)
    if tier != "quick":
        for r in rs:
            r["timeout"] *= 6
    return rs


# ------------------------------------------------------------------ fibers and their locks
@prop("C01", "runtime monitor (run/join counters, thread identity, register and stack probes around every switch) under ASan/UBSan/TSan and uninstrumented builds",
      "Explores random trees of fibers over 1-4 event loops with every way of creating and joining; the real assembly switches run in all builds.",
      "a case is a random programme of fibers (creation kind, loop, stack size, body, join order); distinct by the order of entries, ends and joins",
      {"fibers": 3000, "joins": 1500, "probed_switches": 5000, "stack_frames_checked": 10000, "thread_joins": 5, "wake.waits": 20000, "wake.from_fiber": 1500, "wake.from_main": 1000, "wake.ready": 1000})
def c01(k):
    return [run("asan", "fiber", 120 * k, "mode=prog", "jitter=200"), run("tsan", "fiber", 90 * k, "mode=prog", "jitter=200"),
            run("plain", "fiber", 120 * k, "mode=prog", "jitter=200"), run("rel", "fiber", 120 * k, "mode=prog", "jitter=300"),
            run("asan", "fiber", 60 * k, "mode=prog", "loops=1"), run("plain", "fiber", 60 * k, "mode=prog", "loops=1"),
            run("asan", "fiber", 50 * k, "mode=stack"), run("plain", "fiber", 60 * k, "mode=stack"), run("rel", "fiber", 60 * k, "mode=stack"),
            run("asan", "fiber", 120 * k, "mode=wake", "jitter=200"), run("tsan", "fiber", 80 * k, "mode=wake", "jitter=200"), run("plain", "fiber", 100 * k, "mode=wake"),
            run("rel", "fiber", 120 * k, "mode=wake"), run("asan", "fiber", 60 * k, "mode=wake", "loops=1")]


@prop("C02", "runtime monitor (admission counters, exact single-loop model) under ASan/UBSan/TSan with injected delays at lock boundaries",
      "Explores seeded workloads of lock, try-lock, callback-lock, unlock and limit changes on 1-4 event loops; TSan also watches the data guarded by the mutex.",
      "a case is one mutex with its own fibers, limit and programme; distinct by the order in which locks were granted plus the highest number of holders seen",
      {"mutex.granted": 2000, "mutex.refused": 30, "mutex1.blocked_grants": 500, "mutex1.refused": 50, "mutex.cb_granted": 200, "mutex.shared_cases": 20})
def c02(k):
    return [run("asan", "sync", 120 * k, "mode=mutex", "jitter=150"), run("tsan", "sync", 100 * k, "mode=mutex", "jitter=100"),
            run("asan", "sync", 150 * k, "mode=mutex1", "loops=1"), run("rel", "sync", 150 * k, "mode=mutex", "jitter=300"),
            run("asan", "sync", 150 * k, "mode=mutexcb", "jitter=100"), run("tsan", "sync", 80 * k, "mode=mutexcb", "jitter=100"),
            run("tsan", "sync", 60 * k, "mode=mutex1", "loops=1")]


@prop("C03", "runtime monitor (reader/writer occupancy, exact single-loop run) under ASan/UBSan/TSan with injected delays",
      "Explores seeded read/write lock workloads on 1-4 event loops; a lost wake-up shows as a stuck population, exclusion as an occupancy or data-race report.",
      "a case is one rwlock with its own fibers; distinct by the order of admissions plus the largest number of simultaneous readers",
      {"rwlock.reads": 1500, "rwlock.writes": 700, "rwlock.shared_read_cases": 60})
def c03(k):
    return [run("asan", "sync", 150 * k, "mode=rw", "jitter=150"), run("tsan", "sync", 120 * k, "mode=rw", "jitter=100"),
            run("asan", "sync", 150 * k, "mode=rw1", "loops=1"), run("rel", "sync", 150 * k, "mode=rw", "jitter=300"),
            run("tsan", "sync", 60 * k, "mode=rw1", "loops=1")]


@prop("C04", "runtime monitor (notification/wait conservation with unique tokens) under ASan/UBSan/TSan with injected delays",
      "Explores seeded notify/wait/try-wait/callback-wait workloads; every notification carries a unique value that exactly one auto-reset wait may consume.",
      "a case is one condition with its notifiers and waiters; distinct by the order of notifications and releases",
      {"cond.waits": 1500, "cond.blocked_waits": 400, "cond.immediate_waits": 150, "cond.sync_waits": 150, "cond.try_ok": 20, "cond.late_values": 300})
def c04(k):
    return [run("asan", "sync", 150 * k, "mode=cond", "jitter=150"), run("tsan", "sync", 100 * k, "mode=cond", "jitter=100"),
            run("asan", "sync", 150 * k, "mode=cond1", "loops=1"), run("rel", "sync", 150 * k, "mode=cond", "jitter=300"),
            run("asan", "sync", 80 * k, "mode=condsync"), run("tsan", "sync", 60 * k, "mode=condsync")]


@prop("C05", "runtime monitor (token conservation, per-sender order, outcome matching) under ASan/UBSan",
      "Explores seeded channel programmes on one loop, closing at arbitrary points; allocation accounting covers the channel's own memory.",
      "a case is one channel with its senders, receivers and closing point; distinct by the sequence of transfers and outcomes",
      {"chan.received": 600, "chan.send_errors": 150, "chan.recv_errors": 150, "chan.answered_sends": 50})
def c05(k):
    return [run("asan", "sync", 130 * k, "mode=chan", "loops=1"), run("rel", "sync", 130 * k, "mode=chan", "loops=1"),
            run("tsan", "sync", 60 * k, "mode=chan", "loops=2")]


# ------------------------------------------------------------------ threads and loops
@prop("C06", "runtime monitor (run counters, occupancy, exact single-worker order model) with failing thread starts under ASan/UBSan/TSan",
      "Explores seeded submissions by up to 5 threads to pools of 1-5 workers with and without queue bounds, thread calls from fibers and thread-start failures at seeded points.",
      "a case is one pool (or one set of thread calls) with its submitters, limits and faults; distinct by the order in which jobs ran",
      {"worker.jobs": 3000, "worker.refused": 500, "worker.waited": 15, "worker.full_pools": 60, "worker.limits_set": 60, "worker.thread_faults": 100, "pool.started": 500,
       "pool.start_failed": 40, "pool.flushes": 8, "tcall.ok": 800, "tcall.failed": 30})
def c06(k):
    return [run("asan", "loop", 120 * k, "mode=worker1"), run("tsan", "loop", 60 * k, "mode=worker1"),
            run("asan", "loop", 80 * k, "mode=workern", "jitter=100"), run("tsan", "loop", 60 * k, "mode=workern", "jitter=100"), run("rel", "loop", 80 * k, "mode=workern"),
            run("asan", "loop", 60 * k, "mode=workerf"), run("tsan", "loop", 40 * k, "mode=workerf"),
            run("asan", "loop", 80 * k, "mode=pool"), run("tsan", "loop", 60 * k, "mode=pool"),
            run("asan", "loop", 60 * k, "mode=tcall", "jitter=150"), run("tsan", "loop", 40 * k, "mode=tcall")]


@prop("C07", "runtime monitor (delivery counters, thread identity, payload visibility) with loops blocked without time-out, under ASan/UBSan/TSan",
      "Explores posts by up to 6 threads and re-posts between 1-8 loops; the loops wait for ever, so only the post itself can wake them; also beside callbacks that post themselves again without end.",
      "a case is a set of posting threads, targets and re-post chains; distinct by the order of deliveries",
      {"posts": 20000, "fair.posts": 3000, "boot.programs": 90, "boot.grown": 15, "boot.registered": 700})
def c07(k):
    return [run("asan", "loop", 80 * k, "mode=post", "jitter=150"), run("tsan", "loop", 80 * k, "mode=post", "jitter=150"),
            run("asan", "loop", 80 * k, "mode=post", "loops=1"), run("rel", "loop", 120 * k, "mode=post", "loops=8"),
            run("tsan", "loop", 60 * k, "mode=post", "loops=2", "jitter=60"), run("asan", "sync", 60 * k, "mode=mutexcb", "jitter=100"),
            run("asan", "loop", 120 * k, "mode=fair", "jitter=100"), run("rel", "loop", 200 * k, "mode=fair"), run("tsan", "loop", 80 * k, "mode=fair", "jitter=60"),
            run("asan", "boot", 60 * k, "who=7"), run("tsan", "boot", 50 * k, "who=7")]


@prop("C08", "runtime monitor (exact model of timers and ticks on a virtual clock, stepping the loop turn by turn) under ASan/UBSan/TSan",
      "Explores seeded programmes of timers, equal deadlines, ticks and clock steps; single-loop runs are compared with an exact model after every turn, many-loop runs at quiet points.",
      "a case is one programme of timers, ticks and clock steps; distinct by the order in which timers fired",
      {"timer.fired": 50000, "timer.shared_deadlines": 10000, "timer.added_in_callbacks": 10000, "timer.clock_set_back": 300, "timer.long": 4000, "tick.registered": 400,
       "tick.closed_by_other": 40, "timer.exact_cross_thread": 4000, "timer.exact_sleeps": 800, "timer.set_back_many_loops": 200, "timer.main_loop_set_back": 50, "boot.programs": 100, "boot.second_hooks": 60})
def c08(k):
    return [run("asan", "loop", 150 * k, "mode=timer"), run("rel", "loop", 200 * k, "mode=timer"),
            run("asan", "loop", 80 * k, "mode=timerq", "jitter=100"), run("tsan", "loop", 60 * k, "mode=timerq"), run("rel", "loop", 100 * k, "mode=timerq", "jitter=200"),
            run("asan", "loop", 40 * k, "mode=timerq", "loops=1"), run("asan", "loop", 60 * k, "mode=mainclock"),
            run("tsan", "loop", 30 * k, "mode=timermt"), run("rel", "boot", 80 * k, "who=8"), run("asan", "boot", 40 * k, "who=8")]


@prop("C23", "runtime monitor (notification/wait conservation) with injected spurious wake-ups under ASan/TSan",
      "Explores auto-reset and manual-reset events with up to 6 waiting threads; every condition-variable wait may return spuriously.",
      "a case is one event with its waiting threads and notifications; distinct by kind, population, number of waits and spurious wake-ups",
      {"kcond.waits": 2000, "kcond.spurious_wakeups": 300, "kcond.try_ok": 300, "kcond.bursts": 150, "kcond.pulses": 60})
def c23(k):
    return [run("asan", "loop", 200 * k, "mode=kcond"), run("tsan", "loop", 150 * k, "mode=kcond", "jitter=50"), run("rel", "loop", 250 * k, "mode=kcond", "jitter=100")]


@prop("C24", "runtime monitor (occupancy counters, torn-data check, scripted admission) under TSan and uninstrumented builds",
      "Explores up to 8 threads hammering both kinds of spin lock, plus scripted orders of arrival that decide who may enter.",
      "a case is one lock with its threads; distinct by numbers of reads, writes and readers seen together",
      {"spin.operations": 60000, "spin.priority_scripts": 40, "spin.shared_reads": 150})
def c24(k):
    return [run("plain", "loop", 200 * k, "mode=spin"), run("rel", "loop", 200 * k, "mode=spin"), run("tsan", "loop", 80 * k, "mode=spin"), run("asan", "loop", 80 * k, "mode=spin")]


# ------------------------------------------------------------------ network
@prop("C09", "runtime monitor (per-stream byte patterns, totals, end-of-stream order) with injected partial and would-block transfers under ASan/UBSan/TSan",
      "Explores seeded full-duplex sessions over TCP and stream socket pairs, ended orderly, by abort or by reset; transfers are cut to arbitrary sizes and would-block results injected.",
      "a case is one session of two ends; distinct by the sequence of transfer sizes seen by each end",
      {"tcp.sessions": 400, "tcp.aborted": 40, "tcp.ends": 300, "injected.short": 5000, "injected.would_block": 2000, "tcp.cb_reads": 1500, "tcp.cb_writes": 1500,
       "tcp.writev_full": 500, "tcp.chain_reads": 500, "raw.half_closed": 30, "raw.reset_seen": 8})
def c09(k):
    return [run("asan", "tcp", 900 * k, "mode=tcp"), run("tsan", "tcp", 300 * k, "mode=tcp"), run("rel", "tcp", 1200 * k, "mode=tcp", "jitter=200"),
            run("asan", "tcp", 80 * k, "mode=tcp", "loops=1"), run("asan", "tcp", 400 * k, "mode=raw"), run("tsan", "tcp", 160 * k, "mode=raw")]


@prop("C10", "runtime monitor (per-stream byte patterns, wire tap, handshake outcomes, OpenSSL as independent peer) under ASan/UBSan/TSan, also with the SSL BIO",
      "Explores seeded full-duplex TLS 1.2/1.3 sessions between two kasync ends through a relay that cuts segments anywhere, sessions against plain OpenSSL peers "
      "(resumption, early data, key updates, small records, HelloRetryRequest, truncation), and connections that must fail (cut, bit flips, untrusted, no common version, clear text).",
      "a case is one session or one failing connection; distinct by the sequence of transfer sizes and outcomes seen by the ends",
      {"tls.sessions": 200, "tls.relayed": 60, "tls.wire_bytes": 1000000, "tls.v12": 20, "tls.v13": 20, "tls.cb_handshakes": 60, "tls.aborted": 15, "tls.ends": 150,
       "tls.raw_clients": 60, "tls.raw_servers": 40, "tls.resumed": 20, "tls.early": 20, "tls.key_updates": 150, "tls.truncated": 30, "tls.refused": 50, "tls.cut": 30, "tls.flipped": 25, "tls.flipped_deaf": 12,
       "injected.tls_read_blocks": 800, "injected.tls_write_blocks": 250, "tls.old_errors": 1500},
      )
def c10(k):
    return [run("asan", "tls", 300 * k, "mode=tls", name="tls.asan"), run("tsan", "tls", 60 * k, "mode=tls", name="tls.tsan"), run("rel", "tls", 400 * k, "mode=tls", name="tls.rel"),
            run("bio", "tls", 100 * k, "mode=tls", name="tls.bio"),
            run("asan", "tls", 200 * k, "mode=tlsraw", name="raw.asan"), run("tsan", "tls", 60 * k, "mode=tlsraw", name="raw.tsan"), run("rel", "tls", 200 * k, "mode=tlsraw", name="raw.rel"), run("bio", "tls", 100 * k, "mode=tlsraw", name="raw.bio"),
            run("asan", "tls", 90 * k, "mode=tlsfail", name="fail.asan"), run("rel", "tls", 60 * k, "mode=tlsfail", name="fail.rel"), run("bio", "tls", 60 * k, "mode=tlsfail", name="fail.bio")]


@prop("C11", "runtime monitor (expected byte log built from the files and the results, compared with what the peer received) with injected partial and would-block transfers under ASan/UBSan/TSan",
      "Explores seeded programmes of file transfers, headers and file reads over plain and TLS connections to peers that read, stop, close or reset; there is no kernel TLS here, "
      "so SSL_sendfile is a stand-in that reads the range and writes it through the session, keeping an unfinished piece.",
      "a case is one connection with its programme of transfers; distinct by the sequence of bytes moved",
      {"sendfile.calls": 2000, "sendfile.far": 800, "sendfile.full": 2000, "sendfile.callbacks": 1000, "sendfile.end_of_file": 800, "sendfile.partial": 150, "sendfile.plain": 100, "sendfile.tls": 200,
       "sendfile.tls_blocked": 10, "sendfile.broken": 60, "sendfile.headers": 500, "injected.short": 5000, "injected.would_block": 2500})
def c11(k):
    return [run("asan", "file", 900 * k, "mode=sendfile", name="sendfile.asan"), run("tsan", "file", 150 * k, "mode=sendfile", name="sendfile.tsan"),
            run("rel", "file", 1400 * k, "mode=sendfile", "jitter=200", name="sendfile.rel"), run("asan", "file", 200 * k, "mode=sendfile", "tls=0", "loops=1", name="sendfile.asan-plain")]


@prop("C12", "runtime monitor (an ordinary file under the same operations as oracle, contents compared at the end) with refused submissions, short and failing completions under ASan/UBSan/TSan",
      "Explores seeded programmes over all open modes, direct I/O, positions no file has, safe calls from other loops, fibers on disjoint ranges and more operations than the kernel queue takes.",
      "a case is one file (or one range of a shared one) with its programme; distinct by the sequence of results",
      {"file.reads": 5000, "file.writes": 5000, "file.appends": 700, "file.direct_reads": 700, "file.direct_writes": 400, "file.direct_short": 60, "file.end_of_file": 2500, "file.failed_writes": 1500,
       "file.odd_offsets": 1500, "file.far": 300, "file.safe": 2000, "file.shared_cases": 10, "file.sync_cases": 50, "file.bursts": 8, "injected.io_error": 250, "injected.short_result": 200, "injected.submit_refused": 400})
def c12(k):
    return [run("asan", "file", 2000 * k, "mode=file", name="file.asan"), run("rel", "file", 4000 * k, "mode=file", "jitter=200", name="file.rel"), run("tsan", "file", 300 * k, "mode=file", name="file.tsan"),
            run("asan", "file", 200 * k, "mode=file", "loops=1", name="file.asan-1")]


@prop("C13", "runtime monitor (every datagram sent is recorded; each one read is matched by content, length, source and destination address and struck off) with injected would-block and failing reads under ASan/UBSan/TSan",
      "Explores seeded groups of sockets (IPv4, IPv6, bound to one or all addresses, two on one port) read by fibers or callbacks, from raw senders and each other, sizes 0-65507, buffers of any shape, readers started before or after the datagrams, shut down at any moment.",
      "a case is one group of sockets with its senders; distinct by the order and sizes of the datagrams read",
      {"sent": 60000, "received": 60000, "cut": 15000, "empty": 8000, "largest": 2000, "local4": 12000, "local6": 15000, "shutdowns": 6000, "failed_reads": 8000, "callback_reads": 20000, "late_readers": 500, "own_senders": 1800, "broadcast": 1000, "multicast_groups": 600,
       "injected.would_block": 8000, "injected.error": 4000})
def c13(k):
    return [run("asan", "udp", 1500 * k, name="udp.asan"), run("tsan", "udp", 600 * k, "jitter=200", name="udp.tsan"), run("rel", "udp", 2500 * k, name="udp.rel"), run("rel", "udp", 400 * k, "loops=1", name="udp.one")]


@prop("C14", "runtime monitor (delivery counters per client, addresses compared at both ends, references, descriptors, path and port reuse) with would-block accepts and injected delays under ASan/UBSan/TSan",
      "Explores seeded lives of servers (opened over all loops, from an existing socket, or with a fiber accept loop; IPv4, IPv6, unix) with concurrent clients, closing from outside, from a loop and from an accept callback, reopening and releasing at any moment.",
      "a case is one server's life (open, traffic, close, reopen, release); distinct by its sequence of steps and served clients",
      {"opened": 400, "closed": 400, "servers_freed": 200, "accepted": 2500, "addresses_checked": 1500, "unix_names_checked": 40, "bound_connects": 500, "refused_connects": 200, "kasync_connects": 2000, "kasync_connect_failures": 200,
       "late_pings": 800, "closed_in_accept": 40, "released_at_once": 100, "reopened_at_once": 50, "fiber_accepts": 300, "injected.accept_again": 150, "busy_addresses": 2,
       "closed_while_failing": 250, "failed_while_closing": 60, "rebound": 60, "long_paths": 40})
def c14(k):
    return [run("asan", "server", 300 * k, "mode=server", "jitter=150"), run("tsan", "server", 200 * k, "mode=server", "jitter=150"), run("rel", "server", 400 * k, "mode=server", "jitter=300"),
            run("asan", "server", 60 * k, "mode=server", "loops=1"), run("asan", "server", 2 * k, "mode=bindfail")]


@prop("C15", "runtime monitor (activity model on a virtual clock, stepping the loop turn by turn; every result explained by the peer or by silence) under ASan/UBSan, also with the SSL BIO",
      "Explores seeded programmes of reads, writes, connects and TLS handshakes against peers that write, read, close or stay silent; the clock moves to the edges of the periods and is set back.",
      "a case is one loop with up to six connections, periods and a programme; distinct by the silences that ended operations",
      {"timeout.reads": 500, "timeout.writes": 400, "timeout.connects": 500, "timeout.handshakes": 150, "timeout.reported": 1000, "timeout.cb_reported": 500, "timeout.extra_periods": 400,
       "timeout.set_back": 600, "timeout.sendfiles": 500, "timeout.long_periods": 150, "timeout.hundreds_of_periods": 8, "timeout.read_progress": 4000, "timeout.write_progress": 3500, "boot.grown": 6})
def c15(k):
    return [run("asan", "timeout", 500 * k, name="timeout.asan"), run("rel", "timeout", 600 * k, name="timeout.rel"), run("bio", "timeout", 400 * k, name="timeout.bio"),
            run("asan", "boot", 40 * k, "who=15")]


# ------------------------------------------------------------------ data structures
@prop("C16", "runtime monitor (balance of memory, descriptors, event registrations, kernel AIO contexts and threads after every round) under ASan/UBSan with injected failures",
      "Explores seeded rounds of up to 4 of 16 kinds of activity at once (fibers, timers, posts, locks, channels, jobs, files, TCP and TLS servers and clients, odd connections, datagrams, lookups, hang-up watches, buffers and pools), two thirds of them with failures injected into transfers, accepts, thread starts, AIO, event registrations, lookups or with descriptors running out; on 3 long-lived loops and on one private loop per round (also on other threads). After every round the state has to be exactly the one after warming up.",
      "a case is one round; distinct by the activities and faults in it",
      {"rounds": 350, "rounds_with_faults": 200, "loops_ended": 250, "loops_on_other_threads": 40, "mix.fibers": 300, "mix.accepted": 400, "mix.client_handshakes": 60, "mix.server_handshake_failed": 50,
       "mix.connect_failed": 60, "mix.odd_connections": 100, "mix.file_ops": 200, "mix.sendfiles": 6, "mix.thread_calls": 60, "mix.datagrams": 60, "mix.names": 100, "mix.watches": 30, "mix.settings_replaced": 80,
       "fault.descriptors": 100, "idle_threads_gone": 6, "loop_callbacks": 200, "fault.epoll": 5, "fault.short": 40, "fault.reset": 2})
def c16(k):
    return [run("asan", "leak", 60 * k, "mode=loops", name="loops.asan"), run("asan", "leak", 120 * k, "mode=main", name="main.asan"), run("rel", "leak", 100 * k, "mode=loops", name="loops.rel"),
            run("rel", "leak", 150 * k, "mode=main", name="main.rel"), run("bio", "leak", 50 * k, "mode=loops", name="loops.bio")]


@prop("C17", "runtime monitor (exact model of the address cache on a virtual clock with a scripted resolver; answer/ownership conservation under stress) under ASan/UBSan/TSan",
      "Explores lookups from loops and fibers, shared, cached, refreshed, failing and refused ones, flushes and clock steps; getaddrinfo and freeaddrinfo are stand-ins whose answers the harness scripts, delays and counts.",
      "a case is one programme of lookups, answers, failures, flushes and clock steps over a set of names; distinct by names, order and outcomes",
      {"model.lookups": 15000, "model.shared": 2000, "model.cached": 3000, "model.refreshes": 2000, "model.failed_refreshes": 1000, "model.gave_up": 60, "model.refused": 500,
       "model.refresh_meets_pending": 30, "model.refresh_meets_nothing": 60, "model.idle_dropped": 50, "model.kept": 1500, "model.fiber_lookups": 1500,
       "stress.fiber_lookups": 10000, "stress.nested": 10000, "stress.flushes": 5000, "numeric": 900, "answers_freed": 10000, "model.idle_let_go": 5000, "model.timer_flushes": 200, "stress.floods": 40, "memory_checks": 800})
def c17(k):
    return [run("asan", "dns", 300 * k, "mode=model"), run("rel", "dns", 500 * k, "mode=model"),
            run("asan", "dns", 150 * k, "mode=stress", "jitter=80"), run("tsan", "dns", 120 * k, "mode=stress", "jitter=80"),
            run("rel", "dns", 200 * k, "mode=stress", "jitter=80"), run("asan", "dns", 1000 * k, "mode=numeric")]


@prop("C18", "runtime monitor (reference map, full structural walk after operations, comparison counts) under ASan/UBSan",
      "Explores seeded operation sequences over five key orders with up to a few thousand keys; every link and colour is checked by a walk of the real tree.",
      "a case is one tree with its key order, key space and operations; distinct by the sequence of operations and results",
      {"rbtree.lookups": 50000, "rbtree.removed": 100000, "rbtree.walks": 200000, "rbtree.iterations": 10000, "rbtree.max_keys": 10})
def c18(k):
    return [run("asan", "data", 900 * k, "mode=rbtree", name="rbtree.asan"), run("rel", "data", 1500 * k, "mode=rbtree", name="rbtree.rel")]


@prop("C19", "runtime monitor (byte-queue model compared after every operation, allocation balance) under ASan/UBSan",
      "Explores seeded mixes of writes, direct fills, appends, inserts, reads, peeks and partial consumption with chunk sizes 1-5000.",
      "a case is one buffer queue with its chunk size and operations; distinct by the sequence of operations and sizes",
      {"krw.appended": 10000, "krw.inserted": 4000, "krw.peeks": 100000, "krw.reads": 10000, "krw.consumed": 10000, "krw.direct_fills": 15000})
def c19(k):
    return [run("asan", "data", 1500 * k, "mode=krw", name="krw.asan"), run("rel", "data", 3000 * k, "mode=krw", name="krw.rel")]


@prop("C20", "runtime monitor (flat byte model, blocks ending where their memory ends) under ASan/UBSan",
      "Explores seeded growing-buffer programmes, and every seek position of seeded chains and gather vectors, whole and piecewise.",
      "a case is one buffer programme or one chain with all its seek positions; distinct by operations or block sizes",
      {"ks.direct_fills": 8000, "ks.save_points": 5000, "seek.chains": 40000, "seek.vectors": 40000, "seek.advances": 8000})
def c20(k):
    return [run("asan", "data", 1500 * k, "mode=ks", name="ks.asan"), run("rel", "data", 3000 * k, "mode=ks", name="ks.rel")]


@prop("C21", "runtime monitor (interval map of live blocks, content patterns, cleanup log, allocation balance) under ASan/UBSan",
      "Explores seeded pool programmes over all kinds of requests with pool sizes from the minimum up, odd sizes included.",
      "a case is one pool with its size and operations; distinct by the sequence of operations and sizes",
      {"pool.blocks": 150000, "pool.cleanups": 10000, "pool.freed": 8000, "pool.resets": 700, "array.pushed": 40000, "array.created": 8000})
def c21(k):
    return [run("asan", "data", 900 * k, "mode=pool", name="pool.asan"), run("rel", "data", 900 * k, "mode=pool", name="pool.rel")]


@prop("C22", "runtime monitor (reference values, allocation balance, conservation sums over threads) under ASan/UBSan/TSan",
      "Explores seeded string contents, list programmes and threads sharing references and atomic words.",
      "a case is one string, list programme or set of threads; distinct by its parameters and operations",
      {"kstring.single": 1000, "kstring.threads": 300, "klist.walks": 40000, "klist.moved": 1500, "flist.removes": 3000, "katom.cases": 150})
def c22(k):
    return [run("asan", "data", 1200 * k, "mode=string", name="string.asan"), run("tsan", "data", 400 * k, "mode=string", name="string.tsan"), run("rel", "data", 2000 * k, "mode=string", name="string.rel")]


@prop("C25", "ThreadSanitizer (and ASan/UBSan) over a crowd of all cross-thread operations at once, with counted operations and injected delays and failures",
      "Explores a seeded stream of up to 6 activities of 16 kinds at once on 4 event loops, together with fibers of all loops sharing locks and conditions and 3 raw threads that post, spawn, time, look up, count, start jobs and threads, flush and read the clock; every operation is counted in and out. Judged are the executions reached; loosely read hints are listed in lib/tsan.supp.",
      "a case is one activity in the crowd; distinct by kind, parameters and faults",
      {"mix.accepted": 150, "mix.client_handshakes": 60, "mix.thread_calls": 30, "mix.datagrams": 30, "mix.names": 80, "mix.watches": 10, "mix.settings_replaced": 60, "mix.sendfiles": 4, "mix.file_ops": 100,
       "posts": 30000, "timers": 30000, "shared_locks": 80000, "shared_notices": 20000, "pool_jobs": 15000, "thread_starts": 15000, "own_references": 80, "strings": 50, "addresses": 50,
       "cache_hits": 100, "clock_adjusted": 300, "resolutions": 2000, "server_references": 20000})
def c25(k):
    return [run("tsan", "race", 250 * k, "jitter=60", name="crowd.tsan"), run("tsan", "race", 150 * k, "jitter=250", "drivers=2", "conc=10", name="crowd2.tsan"),
            run("tsan", "race", 120 * k, "jitter=0", "drivers=1", name="crowd3.tsan"),
            run("asan", "race", 250 * k, "jitter=60", name="crowd.asan"), run("rel", "race", 300 * k, name="crowd.rel"), run("bio", "race", 120 * k, "jitter=60", name="crowd.bio")]


@prop("C26", "runtime monitor (certificate, version and protocol seen at both ends against a model of settings in force, context and handle life counters, allocation balance, injected allocation failures) under ASan/UBSan/TSan",
      "Explores seeded servers whose settings are replaced from several threads while raw and library clients connect, resume, ask for names and protocols and while the server is closed and reopened on 3 event loops; valid and invalid settings by file and by buffer; all version sets against all client ranges.",
      "a case is one server life, one context setting or one version set; distinct by context, name, protocols, versions and distance from the newest settings",
      {"replaced": 500, "served_by_name": 200, "served_default": 150, "served_unknown_name": 120, "served_during_replacement": 150, "protocols_negotiated": 250, "protocols_disjoint": 100,
       "refused_clients": 80, "refused_settings": 900, "refused_in_lookup": 60, "accepted_settings": 200, "chains": 60, "client_certificates": 60, "contexts_let_go": 30, "contexts_freed": 700,
       "memory_refused": 200, "versions_agreed": 200, "versions_refused": 80, "lingering_clients": 150, "sni_released": 300,
       "foreign_sessions_offered": 60, "own_sessions_resumed": 50, "sessions_refused": 500})
def c26(k):
    return [run("asan", "tlsctx", 40 * k, "mode=server", "jitter=80", name="server.asan"), run("tsan", "tlsctx", 30 * k, "mode=server", "jitter=80", name="server.tsan"),
            run("rel", "tlsctx", 60 * k, "mode=server", name="server.rel"), run("bio", "tlsctx", 40 * k, "mode=server", name="server.bio"),
            run("asan", "tlsctx", 300 * k, "mode=ctx"), run("asan", "tlsctx", 60 * k, "mode=memory"), run("asan", "tlsctx", 48 * k, "mode=versions")]


@prop("C27", "runtime monitor (watch and hang-up order, once-only delivery, byte-exact streams afterwards) under ASan/UBSan/TSan with injected short transfers",
      "Explores seeded programmes of watching, removing, replacing, reading, writing and hanging up (half-close, close, reset) over unix and TCP sockets on 3 event loops; TLS connections are not watched here.",
      "a case is one connection with its operations and the way and moment its peer hangs up; distinct by operations and order",
      {"watches": 4000, "told": 1200, "hang_up_while_watched": 350, "watched_after_hang_up": 180, "watched_meanwhile": 150, "removed": 1200, "replaced_by_read": 350,
       "replaced_by_write": 350, "refused": 350, "removed_before_told": 120, "read_to_the_end": 800, "watched_after_removal": 60})
def c27(k):
    return [run(v, "hup", 500 * k, "jitter=100", "conc=20", name="hup.%s" % v) for v in ("asan", "tsan", "rel")]


@prop("C28", "runtime monitor (system conversions and socket options as oracle) under ASan/UBSan",
      "Explores seeded and extreme addresses, exact-size buffers, malformed texts, all flag combinations of socket creation over the loopback.",
      "a case is one address, one set of addresses compared pairwise or one socket set-up; distinct by address text or parameters",
      {"addr.round_trips": 8000, "addr.malformed": 7000, "addr.equal_pairs": 30000, "addr.masks": 80000, "socket.connected": 200, "socket.udp": 40, "socket.conflicts": 60, "socket.failures": 90})
def c28(k):
    return [run("asan", "data", 1000 * k, "mode=addr", name="addr.asan"), run("rel", "data", 1000 * k, "mode=addr", name="addr.rel")]
