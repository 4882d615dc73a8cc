#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe or [], hook_needed=None)))

p("C01","Fibers run once, joins deliver exactly one result, context survives switches",
  "Every fiber that is started runs its entry function exactly once, on the event-loop thread it was created for; every join returns once, only after that function has ended, with its return value, and the population count returns to its old value when all have ended. A fiber that suspends itself continues once per wake-up, on its own loop, with the value it was woken with. Across any number of suspensions a fiber keeps its own stack contents and callee-saved state, and no suspended fiber's memory is touched or freed before it ends.",
  ["schedules","histories","programs"],"Every program of create / create-sync / new+start / join / try-join / join-with-callback / extra references / sleeps over one or many event-loop threads, in every interleaving; every order of waking by hand from fibers, main fibers, loops and threads.",
  "The tests create a handful of fibers in one fixed order on one loop; they cannot sample join-before-exit, join-after-exit, cross-loop and foreign-thread joins, nested creation and thousands of switches in arbitrary interleavings.",
  ["src/kfiber.c","include/kfiber.h","fcontext/src/fcontext.c","fcontext/src/asm/jump_x86_64_sysv_elf_gas.S","fcontext/src/asm/make_x86_64_sysv_elf_gas.S"],
  [("fiber start/exit and reference counting","src/kfiber.c: kfiber_create*, kfiber_start, kfiber_destroy, kfiber_release"),("join through the close condition","src/kfiber.c: kfiber_join, kfiber_join2, kfiber_try_join"),("context switch","src/kfiber.c: kfiber_wait/kfiber_wakeup/kfiber_jump; fcontext asm")],
  ["entry/exit of the fiber function","return of join","kfiber_get_count"])
p("C02","Fiber mutex: exclusion up to its limit, exact ownership, no lost hand-off",
  "At no time do more fibers hold a fiber mutex than its limit in force when they were admitted, each granted lock is held by exactly one requester, and a try-lock is refused exactly when the number of current holders and waiters has reached the caller's bound. As long as every holder eventually unlocks, every requester is eventually granted, whichever event loop or thread it runs on, and when all is released the mutex reports no holder.",
  ["schedules","histories"],"All interleavings of lock, try-lock, callback-lock, unlock and limit changes by fibers on any number of event loops.",
  "No existing test locks a fiber mutex at all, and lost wake-ups or double grants depend on cross-thread interleavings a fixed test does not produce.",
  ["src/kfiber_sync.c","include/kfiber_sync.h"],
  [("counter under kernel mutex with direct hand-off to a waiter","src/kfiber_sync.c: kfiber_mutex_lock/try_lock/unlock/set_limit")],
  ["call and return of lock/try_lock/unlock"])
p("C03","Fiber rwlock: readers share, a writer is alone, nobody is left waiting",
  "A fiber holding the lock for writing excludes every other reader and writer, readers may share it, and each acquisition is granted exactly once. Once the holders release, all waiters are eventually granted - including when a reader that has just been admitted releases the lock immediately on the thread that woke it - and a later acquirer is never blocked by a fully released lock.",
  ["schedules","histories"],"All interleavings of read/write lock and unlock by fibers on any number of event loops.",
  "The rwlock has no test; the hand-off between queued writers and the readers admitted together only goes wrong in particular orders of arrival and release.",
  ["src/kfiber_sync.c","include/kfiber_sync.h"],
  [("reader/writer counts and waiter queues under a kernel mutex","src/kfiber_sync.c: kfiber_rwlock_*")],
  ["call and return of rlock/wlock/runlock/wunlock"])
p("C04","Fiber condition: every notification is delivered, none is invented",
  "With an auto-reset condition each notification releases exactly one wait (a current one, or the next one to come) and notifications accumulate; with a manual-reset condition the first notification releases every current and every future waiter. A wait never returns without a matching notification, and a waiter that was already waiting receives the value handed with the notification that released it (on a manual-reset condition a later one receives the latest value), across event loops and foreign threads.",
  ["schedules","histories"],"All interleavings of notify, wait, try-wait and callback-wait from fibers of several event loops and from plain threads, on local and thread-safe conditions, and one notification at a time on thread-blocking ones (their event is a single slot).",
  "Join is the only tested user of a condition, with one waiter and one notification in a fixed order.",
  ["src/kfiber_sync.c","include/kfiber_sync.h"],
  [("event counter plus waiter queue","src/kfiber_sync.c: kfiber_cond_* vtables")],["call and return of notify/wait/try_wait"])
p("C05","Fiber channel: each item is received once, in order, and close reaches everyone",
  "Every item accepted by a channel send is received by exactly one receive, items of one sender are received in the order it sent them, and each sender and receiver learns the outcome of its own operation. After close, blocked and later senders and receivers return an error instead of hanging, and the channel memory is released once when the last reference goes.",
  ["schedules","histories"],"All interleavings of send, receive, close and reference changes by any number of fibers of one event loop.",
  "No test uses a channel.",
  ["src/kfiber_sync.c","include/kfiber_sync.h"],
  [("sender and receiver queues with direct transfer","src/kfiber_sync.c: kfiber_chan_*")],["call and return of send/recv/close"])
p("C06","Worker pools run every accepted job exactly once within their limits",
  "Every job accepted by a worker pool, the thread pool or a fiber's thread-call runs exactly once, with its own data, off the submitting thread, never more jobs at a time than the pool's configured workers, and in submission order for a single-worker pool (urgent jobs first). A submission made while more jobs than the queue bound are already waiting is refused without running the job, or (waiting form) waits until there is room; a thread-call hands back the job's result to the calling fiber on its own event loop, and failing to start a thread corrupts nothing.",
  ["schedules","fault_sequences","histories"],"All schedules of submissions by many threads against all worker/queue limits, including thread creation failing at any point.",
  "The only test that reaches the pool does single file operations; limits, refusal, overload and thread-start failure are never exercised.",
  ["src/kasync_worker.c","src/kthread.c","src/kfiber.c"],
  [("queue and worker count under a mutex","src/kasync_worker.c: kasync_worker_add/start/try_start"),("thread reuse pool","src/kthread.c: kthread_pool_start, thread_worker"),("thread call","src/kfiber.c: kfiber_thread_call")],
  ["entry of each job","return of submit"])
p("C07","Work posted to an event loop runs exactly once, on that loop's thread, promptly",
  "A callback posted from any thread to an event loop is invoked exactly once, on that loop's own thread, with the data, argument and result that were posted, and everything the poster wrote before posting is visible to it. The loop wakes for it without waiting for unrelated activity, no amount of later posts keeps an earlier one waiting for ever, and memory of posted work is fully reclaimed. This holds from the first moment: work registered before the loops exist runs once after they start and not before, every loop asked for (also by growing from a single loop) runs on a thread of its own, runs the per-thread call-backs once, and idle loops are all given work.",
  ["schedules","histories"],"All interleavings of posts from any number of threads and loops to any loop, however busy or idle; every number of loops and every order of registering, starting and growing.",
  "The existing tests post only incidentally; a lost wake-up, a double delivery or a missing barrier needs a specific race.",
  ["src/kselector.c","src/kepoll_selector.c","src/kselector_manager.c","include/kselector.h"],
  [("creation, start and growth of the loops","src/kselector_manager.c: selector_manager_init/start/grow/on_ready, kselector_init"),("mutex-protected list plus eventfd","src/kepoll_selector.c: epoll_selector_next, epoll_notify handling"),("execution on the loop","src/kselector.c: kselector_check_timeout")],
  ["post call","callback entry"])
p("C08","Timers fire once, never early, in order, also when the clock is set back",
  "A timer fires exactly once, not before its delay has elapsed and no later than the first loop turn after it is due, and among timers due in different milliseconds the earlier fires first; any number may share a deadline or be added from inside callbacks. Periodic ticks run when they asked to and stop after being closed, and setting the wall clock back by a second or more, on whichever loop, neither stalls pending timers nor fires them early. The program's once-a-second hook runs once for every second the clock shows.",
  ["histories","inputs","fault_sequences"],"All sequences of timer and tick additions with arbitrary delays, from inside and outside callbacks, under any progress of the clock including backward steps.",
  "Existing tests use one or two real-time sleeps and cannot step the clock or collide deadlines.",
  ["src/kselector.c","src/kselector_manager.c","src/kepoll_selector.c","include/kselector.h"],
  [("deadline tree with equal-deadline chains","src/kselector.c: kselector_add_timer, kselector_check_timeout"),("ticks","src/kselector.c: kselector_*tick*"),("clock adjustment","src/kselector.c: kselector_adjust_time; src/kselector_manager.c")],
  ["timer callback entry","virtual clock"])
p("C09","TCP streams arrive intact under partial transfers and full duplex",
  "For every connection the bytes received are exactly the concatenation of the buffers sent, in order, without loss, duplication or alteration, and end of stream is reported after the last byte and only then; a read or write never reports more bytes than transferred nor touches memory outside the given buffers. This holds for single, vectored, full-length and buffer-chain operations, for reading and writing concurrently from different fibers, and however the kernel splits or delays the transfers.",
  ["inputs","schedules","fault_sequences"],"All sequences of reads and writes of any sizes and shapes, with any pattern of partial transfers and would-block results from the kernel.",
  "The existing tests exchange no systematic data and the kernel never splits small loopback transfers.",
  ["src/kselectable.c","src/kepoll_selector.c","src/kfiber.c","include/kselectable.h"],
  [("readiness handling and re-arming","src/kselectable.c: selectable_event_read/write/readv/writev; src/kepoll_selector.c"),("looping full transfers","src/kfiber.c: kfiber_net_read_full/write_full/writev_full/write_buf_full")],
  ["return of each net read/write"])
p("C10","TLS streams arrive intact and encrypted under any record or packet split",
  "After a successful handshake on both ends the plaintext received by each side is exactly what the other sent, in order, followed by a clean end of stream, whatever the size and shape of the operations, of TLS records and of network segments, whenever the socket would block and whatever failed on other connections; the application bytes never cross the wire in clear. A failed or refused handshake is reported as failure to the side that asked for it and delivers no data.",
  ["inputs","schedules","fault_sequences"],"All sequences of reads and writes of any sizes, any fragmentation of the ciphertext by the network, any interleaving of both directions.",
  "The one TLS test does a single small exchange.",
  ["src/kselectable.c","src/kgl_ssl.c","src/kssl_bio.c","src/kfiber.c"],
  [("SSL read/write with want-read/want-write resumption","src/kselectable.c: ssl branches"),("handshake","src/kfiber.c: kfiber_ssl_handshake; src/kgl_ssl.c")],
  ["return of each read/write/handshake","bytes on the raw socket"])
p("C11","File-to-socket transfers deliver exactly the requested file bytes",
  "A file-to-socket transfer sends exactly the requested range of the file, in order and starting at the file position in force, over plain and encrypted connections alike, whatever portion each system call moves. Its result is the number of bytes moved, and short files, would-block results and peers that stop reading lead to a shorter count or an error, never to wrong or repeated bytes.",
  ["inputs","fault_sequences"],"All ranges, sizes and positions, with any pattern of partial transfers and would-block results.",
  "No test transfers a file over a socket.",
  ["src/kfiber.c","src/kselectable.c","src/kepoll_selector.c"],
  [("sendfile operation","src/kfiber.c: kfiber_sendfile*; src/kselectable.c: selectable_event_sendfile")],
  ["return of transfer","bytes at the peer"])
p("C12","Asynchronous file I/O behaves like synchronous I/O on the same file",
  "Any sequence of asynchronous reads, writes, seeks (from the start or the current position), size queries and closes on a file gives the results and the file contents that the same sequence gives on an ordinary file, including positions, appends, short reads at end of file, holes and errors; an operation the kernel refuses fails without any effect; programs that are started do not inherit the file; concurrent operations by different fibers on different ranges do not disturb each other. Direct-I/O reads return the same bytes as ordinary reads for every offset and length (they may stop at the end of a block, but report the end of the file only there).",
  ["inputs","histories","fault_sequences"],"All sequences of operations with any offsets and lengths in ordinary and direct mode, any number of fibers, with kernel errors and short results.",
  "One test does a single write/read round trip on a small file.",
  ["src/kasync_file.c","src/kfile.c","src/kfiber.c","src/kepoll_selector.c"],
  [("kernel AIO submission and completion","src/kepoll_selector.c: epoll aio"),("alignment and result adjustment","src/kasync_file.c: kasync_file_direct*, kasync_file_adjust_result"),("fiber file API","src/kfiber.c: kfiber_file_*")],
  ["return of each file call","final file contents"])
p("C13","UDP datagrams keep their boundaries, contents and addresses",
  "Each datagram read is one datagram that was sent to that socket, whole and unaltered (cut only to the reader's buffer), with the true source address, and with the destination address it was sent to (a broadcast address included) when that was requested; each is read at most once. A group is joined exactly when the system allows it. A pending read on a quiet socket completes when a datagram arrives and fails when the socket is shut down.",
  ["inputs","schedules"],"All sequences of sends and receives of any size, IPv4 and IPv6, with buffers of any shape, immediate or waiting.",
  "No stable test uses UDP.",
  ["src/kudp.c","src/kselectable.c","include/kudp.h"],
  [("recvmsg with control data","src/kselectable.c: selectable_recvmsg; src/kudp.c")],
  ["return of send/recv"])
p("C14","Servers hand over each connection once and can be closed, reopened and freed",
  "Each connection a peer completes against an open server is delivered to the accept path exactly once, with the right peer and local addresses, on a live event loop; connecting reports success when the peer accepted and an error when nobody did (a peer that hangs up at once may show either way). Closing a server stops delivery, frees the address for reuse (for any family) and releases everything once pending users are done, in any order of close, release, failing and concurrent accepts; a unix-domain server removes its own path, and an address that cannot be used as given (such as a path too long) is refused.",
  ["schedules","histories","configurations"],"All orders of open, bind failure, accept, connect, close, release and reopen over one or several event loops, on IPv4, IPv6 and unix sockets.",
  "Three tests open and close a server with no concurrent traffic.",
  ["src/kserver.c","src/kconnection.c","src/ksocket.c","src/kfiber.c"],
  [("listener lifecycle and references","src/kserver.c"),("connection objects","src/kconnection.c"),("connect","src/kfiber.c: kfiber_net_connect")],
  ["accept callback","connect result","descriptor and path tables"])
p("C15","Idle operations time out once and on time, active ones never",
  "An operation that waits on a connection on which nothing happens for the configured period (plus as many more periods as the connection was granted) fails once, no earlier than that and within one loop turn after it is due, for connects, reads, writes and handshakes alike; starting to wait and every wake-up restart the period, and setting the clock back does not disturb it; periods that were set hold on every loop, also on loops added later. Its result is never success nor data that did not arrive; a connection that asked for reported read timeouts gets one per period and reads on afterwards, and no later event touches the memory of the operation that timed out.",
  ["histories","fault_sequences"],"All sequences of activity and silence against any configured periods, under any clock progress.",
  "Timeouts take whole seconds and have no test.",
  ["src/kselector.c","src/kselectable.c","src/kfiber.c","src/kselector_manager.c"],
  [("timeout lists ordered by last activity","src/kselector.c: kselector_check_timeout, kselector_add_list"),("timeout count per connection","include/kselectable.h: tmo/tmo_left")],
  ["return of net operations","virtual clock"])
p("C16","Nothing leaks: memory, descriptors and threads return to their starting level",
  "After any workload has finished and its connections, servers, files, fibers and locks are released, the process holds the same memory, descriptors and event-loop registrations as before it, however often it is repeated and whichever operations failed on the way. An event loop can be started, used and ended repeatedly, also several times on one thread.",
  ["histories","fault_sequences","programs"],"All repetitions and mixtures of the library's operations, including failing ones.",
  "Tests run once per process and measure nothing.",
  ["src/kfiber.c","src/kselector.c","src/kepoll_selector.c","src/kconnection.c","src/kserver.c","src/kgl_ssl.c","src/kasync_file.c"],
  [("reference counts and destroy paths","src/*.c"),("loop teardown","src/kselector.c: kselector_destroy; src/kepoll_selector.c: epoll_selector_destroy; src/kfiber.c: kasync_main")],
  ["malloc/free balance","/proc/self/fd"])
p("C17","Name resolution: each lookup answered once, from the right and fresh answer",
  "Every asynchronous lookup is answered exactly once, on the asking loop, with the resolver's answer for that name and family or with an error; concurrent lookups of one name share a resolution; one that finds the queue full is answered with an error. A cached answer is used while fresh, refreshed when old, kept through temporary failures, let go by a flush (or the periodic one) once unused for its time, leaving nothing behind, and never freed while a lookup still uses it; numeric addresses resolve to themselves.",
  ["schedules","histories","fault_sequences"],"All interleavings of lookups, answers, failures, refreshes and flushes for any set of names, under any clock progress.",
  "No test resolves a name, and the races between flush, refresh and lookup need precise timing.",
  ["src/kaddr.c","src/kfiber.c","include/kaddr.h"],
  [("cache tree, pending queue and reference counts under a mutex","src/kaddr.c")],
  ["lookup callback","resolver stand-in"])
p("C18","Ordered tree stays a correct red-black map under any operation sequence",
  "After any sequence of insertions, lookups and removals the tree contains exactly the keys inserted and not removed, lookups find a key exactly if present, forward and backward iteration visit all keys in order, first and last are the extremes, and iteration may remove the visited key; the covering lookup gives the greatest key not above the asked one, or the last key. Its depth stays within the red-black bound and its colour and parent links stay consistent, so operations stay logarithmic.",
  ["inputs","histories"],"All sequences of operations over any keys.",
  "The tree is only used indirectly by tests with a couple of nodes, far from its rebalancing cases.",
  ["src/krbtree.c","include/krbtree.h"],
  [("insert/erase rebalancing","src/krbtree.c: rb_insert_color, rb_erase; include/krbtree.h")],["tree walk after each operation"])
p("C19","Read/write buffer queue is a faithful byte FIFO with exact length and ownership",
  "Bytes written, appended or inserted into a buffer queue come out in exactly that order, each once, whatever mix of reads, peeks, direct fills and partial consumption is used, and the reported length is always the number of unread bytes. Appended and inserted blocks become property of the queue, and each block is freed exactly once, when its bytes have been read or the queue is cleaned.",
  ["inputs","histories"],"All sequences of buffer queue operations with any sizes.",
  "No test exercises the buffer queue.",
  ["src/kbuf.c","include/kbuf.h"],
  [("block chain with head offset","src/kbuf.c: krw_*")],["returns of each call compared with a byte-queue model"])
p("C20","Buffer chains, seek and gather vectors describe exactly the same bytes",
  "Bytes written to a growing buffer, by copy, as numbers or by direct fill, read back unchanged and in full across growth, save points and the switch to reading; seeking in a chain or in a gather vector gives exactly the bytes from that position on, also when advanced piecewise, and the totals agree. No operation reads outside the stored bytes, whatever positions and lengths are asked for within their documented range.",
  ["inputs","histories"],"All contents, split points and seek positions.",
  "No test exercises these helpers.",
  ["src/kbuf.c","include/kbuf.h","src/kselectable.c"],
  [("ks buffer, kbuf chain","src/kbuf.c: ks_*, kbuf_*"),("gather vector advance","include/kselectable.h, src/kfiber.c: iovec seek")],["bytes compared with a flat model"])
p("C21","Pool blocks are disjoint, aligned, live until the pool dies; cleanups run once",
  "Every block obtained from a pool is usable in full, is aligned as asked, overlaps no other live block and keeps its contents until it is freed or the pool is destroyed, for every pool size and request size. Every registered cleanup runs exactly once, newest first, when the pool is destroyed, arrays keep their elements when they grow, and the destroyed pool returns all its memory.",
  ["inputs","histories"],"All pool sizes and all sequences of allocations, frees, array pushes and cleanup registrations.",
  "No test exercises the pool.",
  ["src/kmalloc.c","include/kmalloc.h"],
  [("bump allocation in chained blocks, large list, cleanup list","src/kmalloc.c")],["returned ranges","cleanup calls"])
p("C22","Counted strings, lists and atomics keep exactly what was put in them",
  "A reference-counted string made from a byte range is a private copy of exactly those bytes and of that length, stays valid while any holder remains and is freed exactly once after the last, also when holders are on different threads. An intrusive list holds exactly the entries inserted and not removed, in insertion order (newest first for a forward list) from both ends, removing one never disturbs the others, and the atomic operations lose no update and return the documented value.",
  ["inputs","histories","schedules"],"All contents (zero bytes included) and lengths, all sequences of list operations, all interleavings of taking and dropping references and of atomic updates.",
  "No test exercises these helpers.",
  ["include/kstring.h","include/klist.h","include/katom.h"],
  [("counted strings","include/kstring.h: kstring_*"),("intrusive lists","include/klist.h"),("atomic operations","include/katom.h")],["return values","frees","list walks"])
p("C23","Thread events release waiters only when set and never lose a set",
  "A wait on an auto-reset thread event returns only after a notification and consumes it; each notification that finds a waiter or an unset event releases exactly one wait. A manual-reset event stays set until reset and releases every current and later wait, and a wait is never released by a spurious wake-up of the operating system.",
  ["schedules","fault_sequences"],"All interleavings of notify, wait and try-wait by any number of threads, including spurious wake-ups.",
  "No test waits with more than one thread on an event, and spurious wake-ups cannot be requested from a test.",
  ["include/ksync.h"],
  [("mutex, condition variable and flag","include/ksync.h: kcond_*")],["call and return of wait/notify"])
p("C24","Spin read/write locks exclude correctly on every thread interleaving",
  "While one thread holds a spin read/write lock for writing nobody else holds it in any way, any number may hold it for reading together, and each release makes it available again. Data protected by the lock is seen consistently by all holders, and with the writer-preferring kind ordinary readers that arrive after a waiting writer do not overtake it while urgent readers do not queue behind it.",
  ["schedules"],"All interleavings of read lock, write lock and unlock by any number of threads.",
  "No test uses these locks.",
  ["include/katom.h","include/ksync.h"],
  [("atomic counter lock","include/katom.h / include/ksync.h rwlock primitives")],["critical section occupancy"])
p("C25","The thread-crossing interface is free of data races",
  "Whatever threads, event loops and fibers use the library through its documented cross-thread operations, no two of them access the same memory without ordering when one writes, apart from the few monotonic hint values that are meant to be read loosely. No use of freed memory, no lock order reversal and no undefined behaviour occurs on the way.",
  ["schedules","programs"],"All schedules of all cross-thread operations: create, join, post, lock, notify, thread-call, accept on several loops, lookup, references.",
  "Tests neither run several loops against each other nor look for races.",
  ["src/kfiber.c","src/kfiber_sync.c","src/kepoll_selector.c","src/kselector_manager.c","src/kasync_worker.c","src/kthread.c","src/kaddr.c","src/kserver.c"],
  [("mutexes, atomics and posting to the owning loop","src/*.c")],["ThreadSanitizer and AddressSanitizer reports"])
p("C26","TLS contexts: newest settings apply and the asked-for name picks the certificate",
  "A connection accepted after a server's TLS settings were replaced uses the newest settings, existing connections keep working, and each context is freed once no user is left. Server-name selection picks the context registered for the name the client asked for, protocol negotiation picks a protocol both sides offered, and an invalid certificate, key or cipher setting is refused without leaking or leaving a half-built context. A session made with one certificate is never resumed for another.",
  ["schedules","histories","inputs"],"All sequences of context creation, replacement and server close with concurrent handshakes on several event loops.",
  "The one TLS test sets one context once.",
  ["src/kgl_ssl.c","src/kserver.c","include/kgl_ssl.h"],
  [("context reference counting and posted update","src/kserver.c: kserver_set_ssl_ctx, kserver_ssl_ctx_next_update"),("context creation and SNI","src/kgl_ssl.c")],["certificate seen by the client"])
p("C27","Peer hang-up notification arrives once and only for a real hang-up",
  "A callback watching a connection for the peer hanging up is told exactly once, on the connection's loop, after the peer hangs up (or when it has done so already), and not before; data sent before the hang-up stays readable. A watch that is removed, or replaced by the next read or write, is not told any more, a watch is refused while a read or write is under way, and the connection remains usable for ordinary operations.",
  ["schedules","histories"],"All interleavings of watch, unwatch, data, close by the peer, reads and writes.",
  "No test watches for hang-up.",
  ["src/kselectable.c","src/kepoll_selector.c","src/kfiber.c"],
  [("hang-up readiness","src/kepoll_selector.c: epoll_selector_readhup/remove_readhup")],["watch result"])
p("C28","Address and socket utilities agree with the system's own conversions",
  "Parsing, formatting, comparing, masking, hashing and port access of IPv4, IPv6 and unix addresses agree with the system's own conversions for every address: format-then-parse gives back the same address, comparison is a total order, equal addresses hash equally and malformed text is refused, without reading or writing outside the given buffers. Sockets are created in exactly the modes asked for (blocking, close-on-exec, port reuse, IPv6-only), with the address bound and the peer reported correctly, waiting for one works whatever its number, and a failing step is reported and leaves no descriptor and no foreign file removed.",
  ["inputs","configurations"],"All addresses and all texts; all combinations of socket flags and families.",
  "No test exercises them beyond one loopback literal.",
  ["src/ksocket.c","include/ksocket.h"],
  [("conversions","src/ksocket.c: ksocket_getaddr, ksocket_sockaddr_*, ksocket_addr_*"),("socket creation","src/ksocket.c: ksocket_listen, ksocket_connect, ksocket_half_connect, ksocket_accept, ksocket_new_udp")],["return values","socket options"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
