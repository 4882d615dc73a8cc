// Link-time stand-ins (-Wl,--wrap=...) around system calls and libc functions used by the
// library under test: pass-through by default, with hooks for fault injection, a virtual
// clock and resource accounting. Compiled without sanitizers.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mon.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <dirent.h>
#include <execinfo.h>
#include <pthread.h>
#include <netdb.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <linux/aio_abi.h>
#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <map>
#include <vector>
#include <unordered_map>
#include <string>

extern "C" void __real_free(void*);
namespace wrap {
Hooks hooks;
static volatile int64_t n_blocks, n_bytes, n_total;
static bool track_on = true;
static volatile int leak_on;
struct Blk { size_t n; void* bt[6]; int nbt; };
static SpinLock leak_lk;
static std::unordered_map<void*, Blk>* leak_map;
static volatile int64_t vclock_ms;
static volatile int vclock_f;
void ctx_on_free(void* p, size_t usable);

AllocStat alloc_stat() {
	return AllocStat{ mon_load(&n_blocks), mon_load(&n_bytes), mon_load(&n_total) };
}
void track_allocs(bool on) { track_on = on; }
void leak_begin() {
	SpinGuard g(leak_lk);
	if (!leak_map) leak_map = new std::unordered_map<void*, Blk>();
	leak_map->clear();
	leak_on = 1;
}
int live_since_begin() {
	SpinGuard g(leak_lk);
	return leak_map ? (int)leak_map->size() : 0;
}
std::string leak_report(int max) {
	std::string r;
	SpinGuard g(leak_lk);
	if (!leak_map) return r;
	int i = 0;
	for (auto& kv : *leak_map) {
		if (i++ >= max) break;
		char tmp[64];
		snprintf(tmp, sizeof(tmp), "%zu bytes from", kv.second.n);
		r += tmp;
		char** s = backtrace_symbols(kv.second.bt, kv.second.nbt);
		for (int j = 1; s && j < kv.second.nbt; j++) {
			const char* o = strchr(s[j], '(');
			const char* c = o ? strchr(o, ')') : NULL;
			r += " ";
			if (o && c) r += std::string(o + 1, c - o - 1);
		}
		r += "; ";
		__real_free(s);
	}
	return r;
}
static inline void note_alloc(void* p) {
	if (!p) return;
	size_t n = malloc_usable_size(p);
	mon_fetch_add(&n_blocks, 1);
	mon_fetch_add(&n_bytes, (int64_t)n);
	mon_fetch_add(&n_total, 1);
	if (leak_on) {
		Blk b;
		b.n = n;
		b.nbt = 0;
		void** fp = (void**)__builtin_frame_address(0);
		(void)fp;
		b.nbt = backtrace(b.bt, 6);
		SpinGuard g(leak_lk);
		(*leak_map)[p] = b;
	}
}
static inline void note_free(void* p) {
	if (!p) return;
	size_t n = malloc_usable_size(p);
	mon_fetch_add(&n_blocks, -1);
	mon_fetch_add(&n_bytes, -(int64_t)n);
	if (leak_on) {
		SpinGuard g(leak_lk);
		leak_map->erase(p);
	}
	if (n >= 16384) ctx_on_free(p, n);
}
int open_fds() {
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d);
	return n - 3;
}
std::string fd_list() {
	std::string r;
	DIR* d = opendir("/proc/self/fd");
	if (!d) return r;
	while (struct dirent* e = readdir(d)) {
		char path[300], tgt[200];
		snprintf(path, sizeof(path), "/proc/self/fd/%s", e->d_name);
		ssize_t k = readlink(path, tgt, sizeof(tgt) - 1);
		if (k <= 0) continue;
		tgt[k] = 0;
		r += std::string(e->d_name) + "=" + tgt + " ";
	}
	closedir(d);
	return r;
}
void vclock_enable(int64_t ms) { __atomic_store_n(&vclock_ms, ms, __ATOMIC_SEQ_CST); __atomic_store_n(&vclock_f, 1, __ATOMIC_SEQ_CST); }
void vclock_disable() { __atomic_store_n(&vclock_f, 0, __ATOMIC_SEQ_CST); }
void vclock_set(int64_t ms) { __atomic_store_n(&vclock_ms, ms, __ATOMIC_SEQ_CST); }
void vclock_advance(int64_t ms) { __atomic_fetch_add(&vclock_ms, ms, __ATOMIC_SEQ_CST); }
int64_t vclock_now() { return __atomic_load_n(&vclock_ms, __ATOMIC_SEQ_CST); }
bool vclock_on() { return vclock_f != 0; }
// what is registered with the event loops, to make a descriptor's readiness appear anew
enum { MAXFD = 4096 };
static struct { int ep; struct epoll_event ev; } reg_tab[MAXFD];
static SpinLock reg_lk;
extern "C" int __real_epoll_ctl(int, int, int, struct epoll_event*);
void rearm(int fd) {
	if (fd < 0 || fd >= MAXFD) return;
	SpinGuard g(reg_lk);
	if (reg_tab[fd].ep) { struct epoll_event ev = reg_tab[fd].ev; __real_epoll_ctl(reg_tab[fd].ep - 1, EPOLL_CTL_MOD, fd, &ev); }
}
int registered(int ep) {
	int n = 0;
	SpinGuard g(reg_lk);
	for (int i = 0; i < MAXFD; i++) if (reg_tab[i].ep && (ep < 0 || reg_tab[i].ep == ep + 1)) n++;
	return n;
}
}
using namespace wrap;

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memalign(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
char* __real_strdup(const char*);

void* __wrap_malloc(size_t n) {
	if (hooks.malloc_fail && hooks.malloc_fail(n)) { errno = ENOMEM; return NULL; }
	void* p = __real_malloc(n);
	if (track_on) note_alloc(p);
	if (hooks.malloc_hook) hooks.malloc_hook(p, n);
	return p;
}
void* __wrap_calloc(size_t a, size_t b) {
	void* p = __real_calloc(a, b);
	if (track_on) note_alloc(p);
	return p;
}
void* __wrap_realloc(void* o, size_t n) {
	if (track_on && o) note_free(o);
	void* p = __real_realloc(o, n);
	if (track_on) { if (p) note_alloc(p); else if (o && n) note_alloc(o); }
	return p;
}
void __wrap_free(void* p) {
	if (track_on) note_free(p);
	__real_free(p);
}
void* __wrap_memalign(size_t a, size_t n) {
	void* p = __real_memalign(a, n);
	if (track_on) note_alloc(p);
	return p;
}
int __wrap_posix_memalign(void** o, size_t a, size_t n) {
	int r = __real_posix_memalign(o, a, n);
	if (track_on && r == 0) note_alloc(*o);
	return r;
}
char* __wrap_strdup(const char* s) {
	char* p = __real_strdup(s);
	if (track_on) note_alloc(p);
	return p;
}

// ---- transfers -------------------------------------------------------------------------
static size_t iov_total(const struct iovec* v, int n) {
	size_t t = 0;
	for (int i = 0; i < n; i++) t += v[i].iov_len;
	return t;
}
static int clip(const struct iovec* v, int n, size_t limit, struct iovec* out) {
	int k = 0;
	for (int i = 0; i < n && limit > 0; i++) {
		if (v[i].iov_len == 0) continue;
		out[k] = v[i];
		if (out[k].iov_len > limit) out[k].iov_len = limit;
		limit -= out[k].iov_len;
		k++;
	}
	return k;
}
#define XFER_LIMIT(fd, op, total) \
	size_t limit = (total); \
	if (hooks.xfer && (total) > 0) { \
		int err = 0; \
		if (hooks.xfer(fd, op, total, &limit, &err)) { errno = err; return -1; } \
	}
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) {
	size_t total = iov_total(v, n);
	XFER_LIMIT(fd, OP_READV, total);
	if (limit < total && n <= 1024) {
		struct iovec out[1024];
		int k = clip(v, n, limit, out);
		return __real_readv(fd, out, k);
	}
	return __real_readv(fd, v, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
	size_t total = iov_total(v, n);
	XFER_LIMIT(fd, OP_WRITEV, total);
	if (limit < total && n <= 1024) {
		struct iovec out[1024];
		int k = clip(v, n, limit, out);
		return __real_writev(fd, out, k);
	}
	return __real_writev(fd, v, n);
}
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
	XFER_LIMIT(fd, OP_READV, n);
	return __real_recv(fd, b, limit, f);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
	XFER_LIMIT(fd, OP_WRITEV, n);
	return __real_send(fd, b, limit, f);
}
ssize_t __real_sendfile(int, int, off_t*, size_t);
ssize_t __wrap_sendfile(int o, int i, off_t* off, size_t n) {
	XFER_LIMIT(o, OP_SENDFILE, n);
	return __real_sendfile(o, i, off, limit);
}
ssize_t __real_sendfile64(int, int, off64_t*, size_t);
ssize_t __wrap_sendfile64(int o, int i, off64_t* off, size_t n) {
	XFER_LIMIT(o, OP_SENDFILE, n);
	return __real_sendfile64(o, i, off, limit);
}
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f) {
	XFER_LIMIT(fd, OP_RECVMSG, (size_t)1);
	(void)limit;
	return __real_recvmsg(fd, m, f);
}
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f) {
	XFER_LIMIT(fd, OP_SENDMSG, (size_t)1);
	(void)limit;
	return __real_sendmsg(fd, m, f);
}
int __real_accept4(int, struct sockaddr*, socklen_t*, int);
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) {
	int err;
	if (hooks.accept_fault && hooks.accept_fault(fd, &err)) { errno = err; return -1; }
	return __real_accept4(fd, a, l, f);
}
int __real_accept(int, struct sockaddr*, socklen_t*);
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
	int err;
	if (hooks.accept_fault && hooks.accept_fault(fd, &err)) { errno = err; return -1; }
	return __real_accept(fd, a, l);
}
int __real_close(int);
int __wrap_close(int fd) {
	if (fd >= 0 && fd < MAXFD && reg_tab[fd].ep) { SpinGuard g(reg_lk); reg_tab[fd].ep = 0; }
	if (hooks.close_hook) hooks.close_hook(fd);
	int r = __real_close(fd);
	if (r < 0 && errno == EBADF && fd >= 0) { mon::violation("fd:closed_twice", "descriptor %d was closed although it is not open", fd); errno = EBADF; }
	return r;
}
int __real_epoll_ctl(int, int, int, struct epoll_event*);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
	int err;
	if (hooks.epoll_ctl_fault && hooks.epoll_ctl_fault(op, fd, &err)) { errno = err; return -1; }
	int r = __real_epoll_ctl(ep, op, fd, ev);
	if (r == 0 && fd >= 0 && fd < MAXFD) {
		SpinGuard g(reg_lk);
		if (op == EPOLL_CTL_DEL) reg_tab[fd].ep = 0;
		else { reg_tab[fd].ep = ep + 1; reg_tab[fd].ev = *ev; }
	}
	return r;
}
int __real_epoll_wait(int, struct epoll_event*, int, int);
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int n, int tmo) {
	if (hooks.epoll_tmo) tmo = hooks.epoll_tmo(ep, tmo);
	int r = __real_epoll_wait(ep, ev, n, tmo);
	if (hooks.epoll_ret) { int e = errno; hooks.epoll_ret(ep, r, ev); errno = e; }
	return r;
}
// ---- clock -----------------------------------------------------------------------------
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* tz) {
	if (vclock_f) {
		int64_t ms = vclock_now();
		tv->tv_sec = ms / 1000;
		tv->tv_usec = (ms % 1000) * 1000;
		return 0;
	}
	return __real_gettimeofday(tv, tz);
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t) {
	if (vclock_f) {
		time_t v = (time_t)(vclock_now() / 1000);
		if (t) *t = v;
		return v;
	}
	return __real_time(t);
}
int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
	if (vclock_f) {
		int64_t ms = vclock_now();
		ts->tv_sec = ms / 1000;
		ts->tv_nsec = (ms % 1000) * 1000000L;
		return 0;
	}
	return __real_clock_gettime(c, ts);
}
// ---- threads ---------------------------------------------------------------------------
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
	int err;
	if (hooks.pthread_create_fault && hooks.pthread_create_fault(&err)) return err;
	return __real_pthread_create(t, a, f, arg);
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if (hooks.cond_wait_spurious && hooks.cond_wait_spurious()) {
		// a legal spurious wake-up: the mutex is released and taken again
		pthread_mutex_unlock(m);
		mon::real_usleep(50);
		pthread_mutex_lock(m);
		return 0;
	}
	return __real_pthread_cond_wait(c, m);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
	if (hooks.lock_hook) hooks.lock_hook();
	return __real_pthread_mutex_lock(m);
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
	int r = __real_pthread_mutex_unlock(m);
	if (hooks.lock_hook) hooks.lock_hook();
	return r;
}
// The thread pool hands work over with a signal; tell the race detector about that order.
#ifdef MON_TSAN
void __tsan_acquire(void*);
void __tsan_release(void*);
#endif
static char sig_chan[256];
static void* chan_of(pthread_t t) { return &sig_chan[(((uintptr_t)t) >> 12) % 256]; }
int __real_pthread_kill(pthread_t, int);
int __wrap_pthread_kill(pthread_t t, int s) {
#ifdef MON_TSAN
	__tsan_release(chan_of(t));
#endif
	return __real_pthread_kill(t, s);
}
int __real_sigwait(const sigset_t*, int*);
int __wrap_sigwait(const sigset_t* s, int* r) {
	int k = __real_sigwait(s, r);
#ifdef MON_TSAN
	__tsan_acquire(chan_of(pthread_self()));
#endif
	return k;
}
// ---- resolver --------------------------------------------------------------------------
int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
int __wrap_getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r) {
	if (hooks.getaddrinfo && !(h && (h->ai_flags & AI_NUMERICHOST)))
		return hooks.getaddrinfo(n, s, h, (void**)r);
	return __real_getaddrinfo(n, s, h, r);
}
void __real_freeaddrinfo(struct addrinfo*);
void __wrap_freeaddrinfo(struct addrinfo* r) {
	bool handled = false;
	if (hooks.freeaddrinfo) hooks.freeaddrinfo(r, &handled);
	if (!handled) __real_freeaddrinfo(r);
}
// ---- kernel AIO through syscall() ------------------------------------------------------
long __real_syscall(long n, long a, long b, long c, long d, long e, long f);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
	if (n == SYS_io_submit && hooks.io_submit_fault) {
		int err;
		if (hooks.io_submit_fault(&err)) { errno = err; return -1; }
	}
	// (the kernel may hand over fewer events than were asked for)
	if (n == SYS_io_getevents && c > 1 && hooks.io_getevents_max) c = hooks.io_getevents_max((int)c);
	long r = __real_syscall(n, a, b, c, d, e, f);
	if (n == SYS_io_getevents && r > 0 && hooks.io_events) hooks.io_events((void*)d, (int)r);
	return r;
}
}
