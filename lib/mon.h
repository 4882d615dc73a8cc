// Monitor support for the harnesses: violations, progress, coverage, statistics, PRNG.
// mon.cc is compiled without sanitizer instrumentation and uses spin locks made of plain
// atomics, so that the monitor adds no happens-before edge a race detector could see.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
	int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
};

namespace mon {
// ---- arguments -------------------------------------------------------------------------
void init(int argc, char** argv, const char* prop);
extern uint64_t seed;
extern int cases;
extern bool thorough;
const char* arg(const char* name, const char* dflt);
int iarg(const char* name, int dflt);
// ---- verdicts --------------------------------------------------------------------------
// key: stable identification of what failed (no addresses, no case numbers).
void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool violated();
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MON_CHECK(cond, key, ...) do { if (!(cond)) mon::violation(key, __VA_ARGS__); } while (0)
// print statistics and leave the process without running destructors
[[noreturn]] void finish();
// ---- statistics ------------------------------------------------------------------------
void eval(uint64_t n = 1);                     // cases / executions judged
void cover(uint64_t signature);                // signature of a non-trivial case: counted when distinct
void count(const char* name, uint64_t n = 1);  // named event counter
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash(uint64_t h, uint64_t v);
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0);
// description of the running case, printed when the process dies or hangs
void set_case(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// ---- progress watchdog -----------------------------------------------------------------
// A watchdog thread reports a hang (inconclusive to the driver, which re-runs once) when
// no progress() call was seen for `seconds`.
void watchdog(int seconds);
void hung(int secs, int64_t steps);      // report of a hang (does not return)
void progress();
// text appended to a hang report
extern void (*on_hang)(char* buf, size_t n);
// wall clock (real, never the virtual one)
int64_t real_usec();
void real_usleep(int us);
// wait (really sleeping) until *v >= target ; progress watchdog applies
void wait_ge(volatile int* v, int target);
void wait_ge64(volatile int64_t* v, int64_t target);
}

struct SpinLock {
	volatile int v = 0;
	void lock();
	void unlock();
};
struct SpinGuard {
	SpinLock& l;
	explicit SpinGuard(SpinLock& x) : l(x) { l.lock(); }
	~SpinGuard() { l.unlock(); }
};
// Counter operations the race detector does not see.
int64_t mon_fetch_add(volatile int64_t* p, int64_t v);
int mon_fetch_add32(volatile int* p, int v);
int64_t mon_load(volatile int64_t* p);
int mon_load32(volatile int* p);
void mon_store32(volatile int* p, int v);

// ---- wraps: fault injection and resource accounting -----------------------------------
namespace wrap {
// allocation balance of the library + harness objects (not of system libraries)
struct AllocStat { int64_t blocks; int64_t bytes; int64_t total; };
AllocStat alloc_stat();
void track_allocs(bool on);
// remember which blocks are live, with a short backtrace, to describe a leak
void leak_begin();
std::string leak_report(int max);
int live_since_begin();
// descriptors
int open_fds();
std::string fd_list();
// virtual clock (milliseconds); on while enabled
void vclock_enable(int64_t start_msec);
void vclock_disable();
void vclock_set(int64_t msec);
void vclock_advance(int64_t msec);
int64_t vclock_now();
bool vclock_on();
// edge-triggered readiness of a descriptor is reported anew, as when the state changed again
void rearm(int fd);
// number of descriptors registered with an event loop (-1: any)
int registered(int ep);
// next fault decisions. All hooks are optional (NULL = pass through). They return true
// when they have produced the result themselves.
struct Hooks {
	// transfers: adjust the allowed number of bytes (>=1) or return -1 with errno set
	bool (*xfer)(int fd, int op, size_t total, size_t* limit, int* err);
	bool (*accept_fault)(int fd, int* err);
	bool (*epoll_ctl_fault)(int op, int fd, int* err);
	bool (*pthread_create_fault)(int* err);
	int (*getaddrinfo)(const char* node, const char* service, const void* hints, void** res);
	void (*freeaddrinfo)(void* res, bool* handled);
	int (*epoll_tmo)(int epfd, int tmo);     // may rewrite the time-out
	void (*epoll_ret)(int epfd, int n, void* events);
	bool (*cond_wait_spurious)(void);
	void (*malloc_hook)(void* p, size_t n);
	bool (*malloc_fail)(size_t n);
	bool (*io_submit_fault)(int* err);
	int (*io_getevents_max)(int n);          // 1..n
	void (*io_events)(void* events, int n);  // may edit results
	bool (*open_fault)(const char* path, int* err);
	void (*lock_hook)(void);
	void (*close_hook)(int fd);
};
extern Hooks hooks;
enum { OP_READV = 1, OP_WRITEV, OP_SENDFILE, OP_RECVMSG, OP_SENDMSG, OP_SSLREAD, OP_SSLWRITE };
}
