// Leaks (C16): rounds of a mixture of everything, after each of which memory, descriptors, event
// registrations, kernel AIO contexts and threads have to be back where they were.
// mode=loops: the manager's loops; mode=main: one private loop after the other (kasync_main).
#include "mix.h"
using namespace mix;

struct State { int64_t blocks, ssl; int fds, aio, regs, threads, answers; };
static bool managed;
static volatile int clock_on = 1;
static int clock_step = 8;
static void* clock_main(void*) {
	while (mon_load32(&clock_on)) { mon::real_usleep(500); wrap::vclock_advance(clock_step); }
	return NULL;
}
static kev_result forget_cb(KOPAQUE, void* arg, int) {
	OPENSSL_thread_stop();
	kx::signal_done((volatile int*)arg);
	return kev_ok;
}
static void flush() {
	if (!managed) return;
	volatile int n = 0;
	for (int i = 0; i < kx::n_loops; i++) kgl_selector_module.next(get_selector_by_index(i), NULL, forget_cb, (void*)&n, 0);
	kx::wait_done(&n, kx::n_loops);
}
static State look() {
	State s;
	int work = 0, idle = 0;
	kthread_get_count(&work, &idle);
	s.ssl = mon_load(&ssl_blocks);
	s.blocks = wrap::alloc_stat().blocks - work - idle;      // (one for each thread of the pool)
	s.fds = wrap::open_fds();
	s.aio = aio_contexts();
	s.regs = registrations();
	s.threads = threads() - work - idle;
	s.answers = mon_load32(&live_answers);
	return s;
}
static bool same(const State& a, const State& b, bool ssl) {
	return a.blocks == b.blocks && a.fds == b.fds && a.aio == b.aio && a.regs == b.regs && a.threads == b.threads && a.answers == b.answers && (!ssl || a.ssl == b.ssl);
}
static int base_fibers = 0, base_work = 0;
// everything has come to rest; tells whether the state is `want`
static bool settle(const State* want, State* got) {
	for (int t = 0; t < 4000; t++) {
		int work = 0, idle = 0;
		kthread_get_count(&work, &idle);
		kgl_flush_addr_cache(0x7fffffff);
		flush();
		OPENSSL_thread_stop();
		if (kfiber_get_count() == base_fibers && work == base_work) {
			*got = look();
			if (!want ? t > 4 : same(*want, *got, true)) return true;
			if (t > 300) return false;
		}
		mon::real_usleep(t < 20 ? 300 : 3000);
		if (t < 300 || t % 100) mon::progress();
	}
	mon::violation("leak.busy", "%d fibers and %d threads are still at work after everything has ended", kfiber_get_count() - base_fibers, 0);
	return false;
}
static std::string differences(const State& a, const State& b) {
	char t[400];
	snprintf(t, sizeof t, "%+lld blocks, %+d descriptors, %+d event registrations, %+d kernel AIO contexts, %+d threads, %+d addresses, %+lld OpenSSL blocks", (long long)(b.blocks - a.blocks), b.fds - a.fds, b.regs - a.regs, b.aio - a.aio, b.threads - a.threads, b.answers - a.answers, (long long)(b.ssl - a.ssl));
	return t;
}
static std::string now_running;
// one round: some activities at once, with some faults
struct Round { std::vector<int> what; int faults; uint64_t seed; };
static Round plan(Rng& r, int forced) {
	Round p;
	p.seed = r.next();
	int n = forced >= 0 ? 1 : 1 + (int)r.below(4);
	for (int i = 0; i < n; i++) p.what.push_back(forced >= 0 ? forced : pick(r));
	p.faults = 0;
	if (r.chance(2, 3)) for (int b = 1; b <= F_DNS; b <<= 1) if (r.chance(1, 4)) p.faults |= b;
	if (!managed) p.faults &= ~F_EPOLL;        // (a loop of its own needs its notifications)
	return p;
}
static std::string name_of(const Round& p) {
	std::string s;
	for (int k : p.what) s += std::string(s.empty() ? "" : "+") + kinds[k].name;
	char t[32];
	snprintf(t, sizeof t, " faults=%x", p.faults);
	return s + t;
}
static void start_all(const Round& p, Ctx& c, volatile int* done) {
	for (int k : p.what) {
		Ctx* x = new Ctx(c.fork());
		kx::spawn(c.any(), [k, x](int) { kinds[k].fn(*x); delete x; return 0; }, done);
		mon::count((std::string("activity.") + kinds[k].name).c_str());
	}
}
static void with_faults(const Round& p, volatile int* done, int n) {
	Rng r(p.seed + 1);
	while (mon_load32(done) < n) {
		if (p.faults & F_FDS) {
			fds_out();
			mon::real_usleep(200 + (int)r.below(1500));
			fds_back();
		}
		mon::real_usleep(200 + (int)r.below(600));
	}
	kx::edge_acquire(done);
}
static int main_fiber(void* arg, int) {
	Round* p = (Round*)arg;
	Ctx c;
	c.r = Rng(p->seed);
	c.loops.push_back(kgl_get_tls_selector());
	volatile int done = 0;
	faults = p->faults & ~F_FDS;
	start_all(*p, c, &done);
	if (p->faults & F_FDS) {
		for (int i = 0; mon_load32(&done) < (int)p->what.size(); i++) { if (i % 2) fds_back(); else fds_out(); kfiber_msleep(1 + (int)c.r.below(3)); }
		fds_back();
	}
	await(&done, (int)p->what.size());
	faults = 0;
	// (fibers that end, and threads that hand their results to this loop)
	for (int i = 0; i < 200; i++) {
		int work = 0, idle = 0;
		kthread_get_count(&work, &idle);
		if (kfiber_get_count() <= base_fibers + 1 && work == base_work) break;
		kfiber_msleep(1);
	}
	for (int i = 0; i < 3; i++) kfiber_msleep(0);
	return 4711;
}
// told when an event loop begins and when it ends, on its thread
static volatile int loop_begins, loop_ends;
static __thread int loops_here;
static kev_result loop_cb(KOPAQUE, void* arg, int got) {
	MON_CHECK(arg == (void*)&loop_begins && (got == 0 || got == 1), "loop.callback", "the thread call-back was given %p, %d", arg, got);
	MON_CHECK(kgl_get_tls_selector() != NULL, "loop.callback", "the thread call-back runs without an event loop");
	MON_CHECK(loops_here == got, "loop.callback", "an event loop %s although %d run on this thread", got ? "ends" : "begins", loops_here);
	loops_here = !got;
	mon_fetch_add32(got ? &loop_ends : &loop_begins, 1);
	return kev_ok;
}
static void run_round(const Round& p) {
	if (!managed) {
		Round q = p;
		int rc;
		if (p.seed % 4 == 0) {
			struct A { Round* p; int rc; } a = { &q, 0 };
			pthread_t t;
			if (pthread_create(&t, NULL, [](void* v) -> void* { A* a = (A*)v; a->rc = kasync_main(main_fiber, a->p, 0); return NULL; }, &a)) mon::harness_error("thread");
			pthread_join(t, NULL);
			rc = a.rc;
			mon::count("loops_on_other_threads");
		} else rc = kasync_main(main_fiber, &q, 0);
		MON_CHECK(loop_begins == loop_ends, "loop.callback", "call-backs for %d begun and %d ended event loops", loop_begins, loop_ends);
		mon::count("loop_callbacks", loop_ends);
		loop_begins = loop_ends = 0;
		MON_CHECK(rc == 4711, "main.result", "kasync_main returned %d", rc);
		MON_CHECK(kgl_get_tls_selector() == NULL, "main.left", "the thread still has an event loop after it has ended");
		mon::count("loops_ended");
		return;
	}
	Ctx c;
	c.managed = true;
	c.r = Rng(p.seed);
	for (int i = 0; i < kx::n_loops; i++) c.loops.push_back(get_selector_by_index(i));
	volatile int done = 0;
	faults = p.faults;
	start_all(p, c, &done);
	with_faults(p, &done, (int)p.what.size());
	faults = 0;
}
static std::string where_now;
int main(int argc, char** argv) {
	mon::init(argc, argv, "C16");
	managed = strcmp(mon::arg("mode", "loops"), "main") != 0;
	wrap::track_allocs(true);
	common();
	faults = 0;
	wrap::vclock_enable(kgl_current_msec);
	pthread_t ct;
	if (pthread_create(&ct, NULL, clock_main, NULL)) mon::harness_error("thread");
	if (!wrap::hooks.epoll_tmo) wrap::hooks.epoll_tmo = kx::cap_tmo;
	if (managed) kx::loops_start(3, true);
	else MON_CHECK(selector_manager_thread_init(loop_cb, (void*)&loop_begins) == 0, "loop.callback", "the thread call-back was refused");
	mon::watchdog(mon::iarg("dog", 90));
	{ int idle; kthread_get_count(&base_work, &idle); }
	base_fibers = kfiber_get_count();
	clock_step = 25;
	Rng r(mon::seed * 1009 + (managed ? 1 : 2));
	int only = -1;
	const char* ok = mon::arg("kind", "");
	for (int i = 0; i < NKINDS; i++) if (!strcmp(ok, kinds[i].name)) only = i;
	State base, now;
	// what is set up once and stays
	for (int i = 0; i < 2 * NKINDS + 6; i++) {
		Round p = plan(r, i < 2 * NKINDS ? i % NKINDS : -1);
		if (i < NKINDS) p.faults = 0;
		mon::set_case("warming up: %s", name_of(p).c_str());
		run_round(p);
		if (!settle(NULL, &now)) mon::finish();
	}
	settle(NULL, &base);
	wrap::leak_begin();
	int settled = 0;
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		Round p = plan(r, only >= 0 ? only : i % 3 == 0 ? i / 3 % NKINDS : -1);
		int iw, ii;
		std::string name = name_of(p);
		mon::set_case("round %d: %s", i, name.c_str());
		run_round(p);
		mon::count("rounds");
		if (p.faults) mon::count("rounds_with_faults");
		mon::cover(mon::hash_bytes(name.data(), name.size()));
		mon::eval();
		if (settle(&base, &now)) { kthread_get_count(&iw, &ii); continue; }
		if (mon::violated()) break;
		// is it something set up for good, or does every such round take more?
		bool kept = now.blocks == base.blocks && now.fds == base.fds && now.aio == base.aio && now.regs == base.regs && now.threads == base.threads && now.answers == base.answers;
		if (kept && ++settled < 40) {
			// only OpenSSL's own: let it show that it grows
			State one = now, two;
			int64_t grown = 0;
			for (int k = 0; k < 4; k++) { run_round(p); settle(&one, &two); grown += two.ssl > one.ssl; one = two; }
			mon::count("openssl_kept");
			if (grown < 3 && one.blocks == base.blocks && one.fds == base.fds) { base = one; continue; }
			now = one;
		}
		std::string diff = differences(base, now), blocks = wrap::live_since_begin() ? wrap::leak_report(6) : "", fds = now.fds != base.fds ? wrap::fd_list() : "";
		const char* key = now.fds != base.fds ? "leak.descriptors" : now.aio != base.aio ? "leak.aio" : now.regs != base.regs ? "leak.registrations" : now.threads != base.threads ? "leak.threads" : now.blocks != base.blocks ? "leak.memory" : "leak.openssl";
		mon::violation(key, "after a round of %s: %s; %s %s", name.c_str(), diff.c_str(), blocks.c_str(), fds.c_str());
	}
	// idle threads of the pool are given back after a minute, again and again
	for (int k = 0; managed && k < 3 && !mon::violated(); k++) {
		int n = r.range(1, 6), work, idle = 0;
		volatile int gate = 0;
		mon::set_case("idle threads, turn %d: %d jobs", k, n);
		for (int i = 0; i < n; i++) if (!kasync_worker_thread_start((void*)&gate, [](void* g, int) -> kev_result { while (!mon_load32((volatile int*)g)) mon::real_usleep(200); return kev_ok; })) mon::harness_error("job");
		mon_store32(&gate, 1);
		int64_t t0 = kgl_current_msec;
		for (int t = 0; ; t++) {
			kthread_get_count(&work, &idle);
			if (work == base_work && idle == 0) break;
			mon::real_usleep(1000);
			clock_step = 100;
			if (t < 3000) mon::progress();
			if (kgl_current_msec - t0 > 600000 && t > 3000) { mon::violation("leak.idle_threads", "%d threads of the pool are still there after %lld idle seconds", idle, (long long)(kgl_current_msec - t0) / 1000); break; }
		}
		mon::count("idle_threads_gone", n);
	}
	mon::sample("state at rest: %lld blocks, %d descriptors, %d registrations, %d AIO contexts, %lld OpenSSL blocks", (long long)base.blocks, base.fds, base.regs, base.aio, (long long)base.ssl);
	mon_store32(&clock_on, 0);
	mon::finish();
}
