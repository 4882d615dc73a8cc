#include "mon.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <errno.h>
#include <sched.h>
#include <time.h>
#include <sys/syscall.h>
#include <map>
#include <vector>
#include <unordered_set>
#include <string>

// This file is compiled without sanitizers.
// What happens under a monitor lock is the monitor's own business: the race detector, which
// still sees the libc calls made there, is told to look away.
#ifdef MON_TSAN
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
}
#define LOOK_AWAY() (AnnotateIgnoreReadsBegin("mon", 0), AnnotateIgnoreWritesBegin("mon", 0))
#define LOOK_AGAIN() (AnnotateIgnoreWritesEnd("mon", 0), AnnotateIgnoreReadsEnd("mon", 0))
#else
#define LOOK_AWAY() ((void)0)
#define LOOK_AGAIN() ((void)0)
#endif
void SpinLock::lock() {
	int n = 0;
	while (__atomic_exchange_n(&v, 1, __ATOMIC_ACQUIRE)) {
		if (++n > 200) { syscall(SYS_sched_yield); n = 0; }
	}
	LOOK_AWAY();
}
void SpinLock::unlock() { LOOK_AGAIN(); __atomic_store_n(&v, 0, __ATOMIC_RELEASE); }
int64_t mon_fetch_add(volatile int64_t* p, int64_t v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
int mon_fetch_add32(volatile int* p, int v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }
int64_t mon_load(volatile int64_t* p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
int mon_load32(volatile int* p) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }
void mon_store32(volatile int* p, int v) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }

namespace mon {
uint64_t seed = 1;
int cases = 1;
bool thorough = false;
static std::string prop = "?";
static std::map<std::string, std::string>* args = NULL;
static SpinLock lk;
static std::map<std::string, int>* viol = NULL;
static int nviol = 0;
static uint64_t evals = 0;
static std::unordered_set<uint64_t>* sigs = NULL;
static std::map<std::string, uint64_t>* counters = NULL;
static std::vector<std::string>* samples = NULL;
static volatile int64_t progress_n = 0;
static char case_desc[512] = "";
void (*on_hang)(char* buf, size_t n) = NULL;

static void json_str(FILE* f, const char* s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}
void init(int argc, char** argv, const char* p) {
	args = new std::map<std::string, std::string>();
	viol = new std::map<std::string, int>();
	sigs = new std::unordered_set<uint64_t>();
	counters = new std::map<std::string, uint64_t>();
	samples = new std::vector<std::string>();
	prop = p;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a.compare(0, 2, "--") == 0) a = a.substr(2);
		size_t e = a.find('=');
		if (e == std::string::npos) (*args)[a] = "1";
		else (*args)[a.substr(0, e)] = a.substr(e + 1);
	}
	seed = strtoull(arg("seed", "1"), NULL, 10);
	cases = atoi(arg("cases", "1"));
	thorough = !strcmp(arg("tier", "quick"), "thorough");
	setvbuf(stdout, NULL, _IOLBF, 0);
	signal(SIGPIPE, SIG_IGN);
}
const char* arg(const char* name, const char* dflt) {
	auto it = args->find(name);
	return it == args->end() ? dflt : it->second.c_str();
}
int iarg(const char* name, int dflt) {
	auto it = args->find(name);
	return it == args->end() ? dflt : atoi(it->second.c_str());
}
void set_case(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	char tmp[512];
	vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	SpinGuard g(lk);
	memcpy(case_desc, tmp, sizeof(tmp));
}
void violation(const char* key, const char* fmt, ...) {
	char tmp[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	for (char* p = tmp; *p; p++) if (*p == '\n') *p = ' ';
	SpinGuard g(lk);
	int n = ++(*viol)[key];
	nviol++;
	if (n <= 3) {
		printf("\n@@V %s|%s [case %s]\n", key, tmp, case_desc);
		fflush(stdout);
	}
	if (nviol > 2000) _exit(9);
}
bool violated() { return nviol > 0; }
void harness_error(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	flockfile(stdout);
	printf("\n@@E ");
	vprintf(fmt, ap);
	printf(" [case %s] errno=%d\n", case_desc, errno);
	va_end(ap);
	fflush(stdout);
	_exit(8);
}
void eval(uint64_t n) { SpinGuard g(lk); evals += n; }
void cover(uint64_t s) { SpinGuard g(lk); sigs->insert(s); }
void count(const char* name, uint64_t n) { SpinGuard g(lk); (*counters)[name] += n; }
void sample(const char* fmt, ...) {
	SpinGuard g(lk);
	if (samples->size() >= 6) return;
	char tmp[700];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	samples->push_back(tmp);
}
uint64_t hash(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
	const unsigned char* s = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 0x100000001b3ull;
	return h;
}
void finish() {
	lk.lock();
	flockfile(stdout);                  // (the library logs to stdout, not always whole lines)
	printf("\n@@S {\"evaluations\":%llu,\"distinct\":%zu,\"sigs\":[", (unsigned long long)evals, sigs->size());
	size_t i = 0;
	for (uint64_t s : *sigs) {
		if (i >= 20000) break;
		printf("%s%llu", i++ ? "," : "", (unsigned long long)(s & 0x1fffffffffffffull));
	}
	printf("],\"counters\":{");
	i = 0;
	for (auto& kv : *counters) {
		if (i++) putchar(',');
		json_str(stdout, kv.first.c_str());
		printf(":%llu", (unsigned long long)kv.second);
	}
	printf("},\"samples\":[");
	i = 0;
	for (auto& s : *samples) {
		if (i++) putchar(',');
		json_str(stdout, s.c_str());
	}
	printf("]}\n@@END\n");
	fflush(stdout);
	_exit(0);
}
int64_t real_usec() {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (int64_t)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
void real_usleep(int us) {
	struct timespec ts = { us / 1000000, (us % 1000000) * 1000L };
	syscall(SYS_nanosleep, &ts, NULL);
}
void progress() { __atomic_fetch_add(&progress_n, 1, __ATOMIC_RELAXED); }
extern "C" void mon_dump_fibers() __attribute__((weak));
void hung(int secs, int64_t n) {
	char buf[1024] = "";
	if (on_hang) on_hang(buf, sizeof(buf));
	if (mon_dump_fibers) mon_dump_fibers();
	if (getenv("MON_GDB")) {
		char cmd[200];
		snprintf(cmd, sizeof cmd, "gdb -p %d -batch -ex 'thread apply all bt 14' 1>&2", (int)getpid());
		if (system(cmd)) {}
	}
	printf("\n@@H no progress for %d s after %lld steps [case %s] %s\n", secs, (long long)n, case_desc, buf);
	fflush(stdout);
	_exit(7);
}
static void* watchdog_thread(void* a) {
	int secs = (int)(intptr_t)a;
	int64_t last = -1;
	int quiet = 0;
	for (;;) {
		real_usleep(200000);
		int64_t n = __atomic_load_n(&progress_n, __ATOMIC_RELAXED);
		if (n != last) { last = n; quiet = 0; continue; }
		if (++quiet >= secs * 5) {
			hung(secs, n);
		}
	}
	return NULL;
}
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void watchdog(int seconds) {
	pthread_t t;
	if (__real_pthread_create(&t, NULL, watchdog_thread, (void*)(intptr_t)seconds)) harness_error("no watchdog thread");
}
void wait_ge(volatile int* v, int target) {
	while (__atomic_load_n(v, __ATOMIC_ACQUIRE) < target) real_usleep(200);
}
void wait_ge64(volatile int64_t* v, int64_t target) {
	while (__atomic_load_n(v, __ATOMIC_ACQUIRE) < target) real_usleep(200);
}
static struct OnCrash {
	OnCrash() {}
} on_crash_;
}
