// Shared helpers of the harnesses: event loops, fibers, tasks.
#pragma once
#include "mon.h"
#ifdef MON_TSAN
#include <sanitizer/tsan_interface.h>
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <vector>
#include <string>
#include <functional>
#include <atomic>
#include <map>
#include <set>
#include <algorithm>
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kconnection.h"
#include "kserver.h"
#include "kthread.h"
#include "kasync_worker.h"
#include "kmalloc.h"

namespace kx {
// loops turn at least this often (milliseconds), so that sleeping fibers wake promptly
static int tmo_cap = 1;
static int cap_tmo(int ep, int tmo) { return tmo < 0 || tmo > tmo_cap ? tmo_cap : tmo; }

// a loopback address of this process' own: no port clashes with others, no self-connection
static const char* loop4() {
	static char b[32];
	if (!b[0]) { unsigned p = (unsigned)getpid(); snprintf(b, sizeof b, "127.%u.%u.%u", 1 + (p >> 16) % 250, (p >> 8) & 255, 1 + (p & 255) % 254); }
	return b;
}
// a port of ::1 of this process' own (a slot is claimed by an abstract name for the life of the process)
static int port6() {
	static int base = 0, next = 0;
	static volatile int lk = 0;
	while (__sync_lock_test_and_set(&lk, 1)) usleep(50);
	for (int i = 0; !base && i < 400; i++) {
		int slot = ((int)getpid() + i) % 200, fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
		sockaddr_un a;
		memset(&a, 0, sizeof a);
		a.sun_family = AF_UNIX;
		int n = snprintf(a.sun_path + 1, 100, "kasync-verif-slot-%d", slot);
		if (bind(fd, (sockaddr*)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + 1 + n)) == 0) base = 10240 + slot * 100;
		else close(fd);
	}
	if (!base) mon::harness_error("no free slot of ports");
	int p = base + next++ % 100;
	__sync_lock_release(&lk);
	return p;
}
static int n_loops = 0;
// completion edge: what a task did is visible to the thread that waited for it (also to the race detector)
static inline void edge_release(volatile void* p) {
#ifdef MON_TSAN
	__tsan_release((void*)p);
#endif
}
static inline void edge_acquire(volatile void* p) {
#ifdef MON_TSAN
	__tsan_acquire((void*)p);
#endif
}
static inline void signal_done(volatile int* v) { edge_release(v); mon_fetch_add32(v, 1); }
static inline void wait_done(volatile int* v, int n) { mon::wait_ge(v, n); edge_acquire(v); }
// threads of the loops
static pthread_t loop_tid[64];
static volatile int loops_up = 0;
static kev_result loop_init_cb(KOPAQUE data, void* arg, int got) {
	if (got == 0) signal_done(&loops_up);
	return kev_ok;
}
static void loops_start(int n, bool flush_threads = false) {
	if (!wrap::hooks.epoll_tmo) wrap::hooks.epoll_tmo = cap_tmo;
	kasync_init();
	selector_manager_thread_init(loop_init_cb, NULL);
	selector_manager_init(n, flush_threads);
	selector_manager_start(NULL, true);
	n_loops = get_selector_count();
	wait_done(&loops_up, n_loops);
	// the library publishes the loops' thread ids by polling: give every loop the edge too
	static volatile int seen;
	mon_store32(&seen, 0);
	for (int i = 0; i < n_loops; i++) kgl_selector_module.next(get_selector_by_index(i), NULL, [](KOPAQUE, void* arg, int) -> kev_result { signal_done((volatile int*)arg); return kev_ok; }, (void*)&seen, 0);
	wait_done(&seen, n_loops);
}
static int loop_index(kselector* s) {
	for (int i = 0; i < n_loops; i++) if (get_selector_by_index(i) == s) return i;
	return -1;
}
static int my_loop() { return loop_index(kgl_get_tls_selector()); }

// A task: a C++ closure run in a fiber on a given loop.
struct Task {
	std::function<int(int)> fn;
	volatile int* done;
};
static int task_entry(void* arg, int len) {
	Task* t = (Task*)arg;
	int r = t->fn(len);
	volatile int* done = t->done;
	delete t;
	mon::progress();
	if (done) signal_done(done);
	return r;
}
// start a fiber on a loop (from any thread); *done is incremented when its function ends
static void spawn(kselector* s, std::function<int(int)> fn, volatile int* done = NULL, int len = 0, int stk = 0, kfiber** f = NULL) {
	Task* t = new Task{ fn, done };
	if (kfiber_create2(s, task_entry, t, len, stk, f) != 0) mon::harness_error("kfiber_create2 failed");
}
static void spawn_local(std::function<int(int)> fn, volatile int* done = NULL, int len = 0, int stk = 0, kfiber** f = NULL) {
	Task* t = new Task{ fn, done };
	if (kfiber_create(task_entry, t, len, stk, f) != 0) mon::harness_error("kfiber_create failed");
}
// give other fibers a turn
static void yield_fiber() { kfiber_msleep(0); }
// run fn on the loop's main fiber (posted)
struct Post { std::function<void()> fn; };
static kev_result post_entry(KOPAQUE data, void* arg, int got) {
	Post* p = (Post*)arg;
	p->fn();
	delete p;
	return kev_ok;
}
static void post(kselector* s, std::function<void()> fn) {
	kgl_selector_module.next(s, NULL, post_entry, new Post{ fn }, 0);
}
// seeded per-context generator
static Rng rng_for(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
	return Rng(mon::hash(mon::hash(mon::hash(mon::seed, a), b), c));
}
static void spin(int n) { for (volatile int i = 0; i < n; i++) {} }
// all the fibers gone? waits for the population to come back to `base`
static void wait_fiber_count(int base) {
	while (kfiber_get_count() != base) mon::real_usleep(200);
}
// random short delays at lock boundaries (where real threads can be pre-empted)
static __thread uint64_t jit;
static volatile int jitter_den = 0;
static void jitter() {
	if (!jitter_den) return;
	if (!jit) jit = mon::hash(mon::seed, (uint64_t)pthread_self()) | 1;
	jit ^= jit << 13; jit ^= jit >> 7; jit ^= jit << 17;
	uint32_t r = (uint32_t)(jit >> 20);
	if (r % jitter_den == 0) mon::real_usleep((r >> 10) % 60);
	else if (r % jitter_den < 8) spin((r >> 8) % 400);
}
static void jitter_on(int den) { jitter_den = den; wrap::hooks.lock_hook = jitter; }
}
