// C07/C08: starting the event loops. Every case is a process of its own: call-backs and timers
// registered before the loops exist, pools of loops of any size, growing from one loop, the
// per-thread call-backs, the choice of a loop and the once-a-second hook.
#include "kx.h"
#include <sys/wait.h>
using namespace kx;

static void __attribute__((noinline)) probe_write(int64_t* p, int64_t v) { *p = v; }
static int64_t __attribute__((noinline)) probe_read(int64_t* p) { return *p; }

static volatile int t_inits, t_inits_bad;
static pthread_t init_tid[256];
static SpinLock init_lk;
static int init_n;
static kev_result on_thread(KOPAQUE data, void* arg, int got) {
	if (got == 0) {
		SpinGuard g(init_lk);
		for (int i = 0; i < init_n; i++) if (arg == (void*)1 && pthread_equal(init_tid[i], pthread_self())) mon::violation("boot.thread_twice", "the thread call-back ran twice on one thread");
		if (arg == (void*)1 && init_n < 256) init_tid[init_n++] = pthread_self();
		if (kgl_get_tls_selector() == NULL) mon::violation("boot.thread_loop", "the thread call-back runs without its loop");
	} else mon::violation("boot.thread_end", "a loop ended");
	signal_done(&t_inits);
	return kev_ok;
}
struct Reg { int id; volatile int runs = 0; int64_t at = 0; int delay = -1; int64_t payload = 0; kselector* on = NULL; volatile int* done; };
static volatile int started;
static kev_result on_reg(KOPAQUE data, void* arg, int got) {
	Reg* g = (Reg*)arg;
	if (mon_fetch_add32(&g->runs, 1)) mon::violation("boot.twice", "call-back %d registered before the start ran twice", g->id);
	if (!mon_load32(&started)) mon::violation("boot.before_start", "call-back %d ran before the loops were started", g->id);
	if (probe_read(&g->payload) != g->id * 77) mon::violation("boot.visibility", "call-back %d does not see what was written before it was registered", g->id);
	kselector* s = kgl_get_tls_selector();
	if (!s || !pthread_equal(s->thread_id, pthread_self()) || loop_index(s) < 0) mon::violation("boot.loop", "call-back %d does not run on a loop", g->id);
	if (got != 0) mon::violation("boot.result", "call-back %d got %d", g->id, got);
	if (g->delay >= 0) {
		if (data != (KOPAQUE)g) mon::violation("boot.opaque", "timer %d got other data", g->id);
		if (kgl_current_msec < g->at + g->delay) mon::violation("boot.early", "a timer of %d ms ran after %lld ms", g->delay, (long long)(kgl_current_msec - g->at));
	}
	g->on = s;
	signal_done(g->done);
	return kev_ok;
}
static int pow2(int n) { int p = 1; while (p * 2 <= n && p < 64) p *= 2; return p; }
static volatile int seconds_hook;
static volatile int64_t hook_sec;
static void second() {
	if (pthread_self() != get_selector_by_index(0)->thread_id) mon::violation("boot.second_thread", "the second hook runs on another thread");
	hook_sec = (int64_t)kgl_current_sec;
	signal_done(&seconds_hook);
}
static void* run_loops(void* a) { selector_manager_start(second, false); return NULL; }

static volatile int visited, order_bad;
struct Visit { int loop; pthread_t tid; volatile int runs; int result; };
static kev_result on_visit(KOPAQUE data, void* arg, int got) {
	Visit* v = (Visit*)arg;
	v->tid = pthread_self();
	v->result = got;
	if (my_loop() != v->loop) mon::violation("boot.wrong_loop", "a post to loop %d ran on loop %d", v->loop, my_loop());
	mon_fetch_add32(&v->runs, 1);
	signal_done(&visited);
	return kev_ok;
}
// every loop is alive, has a thread of its own, runs posts, fibers, timers and ticks
static std::vector<pthread_t> visit_all(Rng& r) {
	int n = get_selector_count();
	n_loops = n;
	std::vector<Visit> v(n);
	visited = 0;
	for (int i = 0; i < n; i++) {
		v[i].loop = i; v[i].runs = 0;
		kgl_selector_module.next(get_selector_by_index(i + n * r.range(0, 3)), NULL, on_visit, &v[i], i + 5);
	}
	wait_done(&visited, n);
	mon::real_usleep(300);
	std::vector<pthread_t> tids;
	for (int i = 0; i < n; i++) {
		MON_CHECK(v[i].runs == 1 && v[i].result == i + 5, "boot.visit", "post to loop %d of %d ran %d times", i, n, v[i].runs);
		for (auto t : tids) MON_CHECK(!pthread_equal(t, v[i].tid), "boot.same_thread", "two loops share a thread");
		tids.push_back(v[i].tid);
	}
	// a fiber on each, started from here, and a timer from outside
	volatile int fd = 0;
	static volatile int td;
	td = 0;
	for (int i = 0; i < n; i++) {
		spawn(get_selector_by_index(i), [i](int) { if (my_loop() != i) mon::violation("boot.fiber_loop", "a fiber for loop %d runs on loop %d", i, my_loop()); kfiber_msleep(1); if (my_loop() != i) mon::violation("boot.fiber_moved", "a fiber moved"); return 0; }, &fd);
		kselector_add_timer_ts(get_selector_by_index(i), [](KOPAQUE d, void* a, int) -> kev_result { if (my_loop() != (int)(intptr_t)a) mon::violation("boot.timer_loop", "a timer for loop %d ran on loop %d", (int)(intptr_t)a, my_loop()); signal_done(&td); return kev_ok; }, (void*)(intptr_t)i, r.below(4), NULL);
	}
	for (int i = 0; wrap::vclock_on() && i < 100 && (mon_load32(&fd) < n || mon_load32(&td) < n); i++) { wrap::vclock_advance(1); mon::real_usleep(1500); }
	wait_done(&fd, n);
	wait_done(&td, n);
	mon::count("boot.loops_visited", n);
	return tids;
}
static void check_spread() {
	// idle loops are chosen in turn
	int n = get_selector_count(), round = 3;
	std::vector<int> hits(n, 0);
	for (int i = 0; i < n * round; i++) { int k = loop_index(get_perfect_selector()); if (k < 0) { mon::violation("boot.choice", "an unknown loop was chosen"); return; } hits[k]++; }
	for (int i = 0; i < n; i++) MON_CHECK(hits[i] > 0, "boot.spread", "idle loop %d of %d was never chosen in %d choices", i, n, n * round);
}
static void child(int ci) {
	Rng r = rng_for(71, ci);
	mon::set_case("boot seed=%llu case=%d", (unsigned long long)mon::seed, ci);
	mon::watchdog(20);
	wrap::hooks.epoll_tmo = cap_tmo;
	bool vclock = r.chance(1, 3);
	int64_t t0 = 1700000000000ll + r.below(1000);
	if (vclock) wrap::vclock_enable(t0);
	kasync_init();
	if (r.chance(1, 3)) kasync_init(); // harmless
	MON_CHECK(!is_selector_manager_init(), "boot.is_init", "initialised before the loops exist");
	volatile int done = 0;
	int nr = r.below(7), nt = r.below(7);
	std::vector<Reg*> regs;
	int cbs = 1 + r.below(2);
	for (int i = 0; i < nr + nt; i++) {
		Reg* g = new Reg();
		g->id = i + 1;
		g->done = &done;
		probe_write(&g->payload, (int64_t)g->id * 77);
		if (i >= nr) g->delay = r.chance(1, 3) ? 0 : r.below(30);
		regs.push_back(g);
	}
	for (int i = (int)regs.size() - 1; i > 0; i--) std::swap(regs[i], regs[r.below(i + 1)]);
	for (auto g : regs) {
		g->at = kgl_current_msec;
		if (g->delay < 0) selector_manager_on_ready(on_reg, g);
		else selector_manager_add_timer(on_reg, g, g->delay, (KOPAQUE)g);
		if (r.chance(1, 5)) mon::real_usleep(r.below(3000));
	}
	MON_CHECK(selector_manager_thread_init(on_thread, (void*)1) == 0, "boot.thread_cb", "a thread call-back was refused before the start");
	if (cbs == 2) MON_CHECK(selector_manager_thread_init(on_thread, (void*)2) == 0, "boot.thread_cb", "a second thread call-back was refused before the start");
	int size = r.chance(1, 3) ? 1 : r.chance(1, 8) ? r.range(-2, 0) : r.chance(1, 10) ? r.range(30, 200) : r.range(1, 9);
	selector_manager_init(size, r.chance(1, 3));
	int want = size < 1 ? 1 : pow2(size);
	MON_CHECK(get_selector_count() == want, "boot.count", "asked for %d loops, got %d", size, get_selector_count());
	MON_CHECK(is_selector_manager_init(), "boot.is_init", "not initialised after the loops exist");
	MON_CHECK(selector_manager_thread_init(on_thread, (void*)3) != 0, "boot.thread_cb_late", "a thread call-back was accepted too late");
	n_loops = get_selector_count();
	int late = r.below(3); // after the loops exist, before they run
	for (int i = 0; i < late; i++) {
		Reg* g = new Reg();
		g->id = 100 + i; g->done = &done;
		if (r.chance(1, 2)) g->delay = r.below(10);
		probe_write(&g->payload, (int64_t)g->id * 77);
		g->at = kgl_current_msec;
		regs.push_back(g);
		if (g->delay < 0) selector_manager_on_ready(on_reg, g);
		else selector_manager_add_timer(on_reg, g, g->delay, (KOPAQUE)g);
	}
	mon::real_usleep(500);
	MON_CHECK(done == 0, "boot.before_start", "%d call-backs ran before the start", done);
	int ctmo = r.range(1, 50), rtmo = r.range(1, 50);
	bool tmo = r.chance(1, 2);
	if (tmo) selector_manager_set_timeout(ctmo, rtmo);
	mon_store32(&started, 1);
	edge_release(&started);
	if (r.chance(1, 2)) selector_manager_start(second, true);
	else { pthread_t t; pthread_create(&t, NULL, run_loops, NULL); pthread_detach(t); }
	wait_done(&t_inits, want * cbs);
	if (vclock) for (int i = 0; i < 60 && mon_load32(&done) < (int)regs.size(); i++) { wrap::vclock_advance(1); mon::real_usleep(1500); }
	wait_done(&done, (int)regs.size());
	// and after the start
	for (int i = 0; i < 3; i++) {
		Reg* g = new Reg();
		g->id = 200 + i; g->done = &done;
		probe_write(&g->payload, (int64_t)g->id * 77);
		regs.push_back(g);
		selector_manager_on_ready(on_reg, g);
	}
	wait_done(&done, (int)regs.size());
	std::vector<pthread_t> tids = visit_all(r);
	check_spread();
	auto check_tmo = [&]() {
		if (!tmo) return;
		for (int i = 0; i < get_selector_count(); i++) {
			kselector* s = get_selector_by_index(i);
			MON_CHECK(s->timeout[KGL_LIST_CONNECT] == ctmo * 1000 && s->timeout[KGL_LIST_RW] == rtmo * 1000, "boot.timeouts", "loop %d of %d has time-outs %d and %d ms instead of %d and %d s", i, get_selector_count(), (int)s->timeout[KGL_LIST_CONNECT], (int)s->timeout[KGL_LIST_RW], ctmo, rtmo);
		}
	};
	check_tmo();
	int grown = want;
	if (r.chance(2, 3)) {
		// growing: only one loop's own thread may, to a larger power of two
		int ns = r.range(0, 20);
		MON_CHECK(!selector_manager_grow(ns + 64), "boot.grow_foreign", "grew from another thread");
		static volatile int gd;
		gd = 0;
		static int gret, gwant;
		post(get_selector_by_index(0), [ns] { gret = selector_manager_grow(ns); gwant = get_selector_count(); signal_done(&gd); });
		wait_done(&gd, 1);
		int to = ns < 1 ? 1 : pow2(ns);
		bool expect = want == 1 && to > 1;
		MON_CHECK(!!gret == expect, "boot.grow", "growing %d loops to %d returned %d", want, ns, gret);
		if (expect) grown = to;
		MON_CHECK(gwant == grown && get_selector_count() == grown, "boot.grown_count", "growing %d loops to %d left %d", want, ns, get_selector_count());
		wait_done(&t_inits, grown * cbs);
		mon::real_usleep(300);
		MON_CHECK(t_inits == grown * cbs, "boot.thread_count", "the thread call-backs ran %d times for %d loops", t_inits, grown);
		std::vector<pthread_t> more = visit_all(r);
		for (size_t i = 0; i < tids.size(); i++) MON_CHECK(pthread_equal(more[i], tids[i]), "boot.renumbered", "loop %zu changed its thread", i);
		check_spread();
		check_tmo();
		if (expect) mon::count("boot.grown");
	}
	if (vclock) {
		// the hook runs once for every second the clock shows, also when it is set back
		int64_t now = wrap::vclock_now();
		for (int i = 0, n = r.range(1, 4); i < n; i++) {
			int before = mon_load32(&seconds_hook);
			int64_t jump = r.chance(1, 4) ? -(int64_t)r.range(1000, 9000) : 1000;
			now += jump;
			wrap::vclock_set(now);
			wait_done(&seconds_hook, before + 1);
			mon::real_usleep(4000);
			MON_CHECK(seconds_hook == before + 1, "boot.second_count", "the second hook ran %d times for one step of the clock", seconds_hook - before);
			MON_CHECK(hook_sec == now / 1000, "boot.second_value", "the hook sees second %lld at %lld", (long long)hook_sec, (long long)(now / 1000));
			const int64_t shown = now / 1000;
			wrap::vclock_advance(1); now = wrap::vclock_now();
			mon::real_usleep(2000);
			if (now / 1000 == shown) MON_CHECK(seconds_hook == before + 1, "boot.second_count", "the second hook ran without a new second");
			else wait_done(&seconds_hook, before + 2);
		}
		mon::count("boot.second_hooks", seconds_hook);
	}
	mon::real_usleep(500);
	for (auto g : regs) MON_CHECK(g->runs == 1, "boot.runs", "call-back %d ran %d times", g->id, g->runs);
	MON_CHECK(t_inits == grown * cbs, "boot.thread_count", "the thread call-backs ran %d times for %d loops", t_inits, grown);
	mon::count("boot.registered", regs.size());
	mon::count("boot.loops", grown);
	uint64_t sig = mon::hash(mon::hash(size, grown), nr * 8 + nt);
	printf("\n@@C %llu %d %d %d %d %d\n", (unsigned long long)(sig >> 12), (int)regs.size(), grown, grown > want, (int)seconds_hook, late);
	fflush(stdout);
	if (mon::violated()) _exit(9);
	_exit(0);
}
// which property a finding belongs to
static bool concerns(const std::string& key, int who) {
	auto in = [&](std::initializer_list<const char*> l) { for (auto x : l) if (key == x) return true; return false; };
	if (key == "boot.timeouts") return who == 15;
	if (in({ "boot.early", "boot.opaque", "boot.timer_loop", "boot.second_thread", "boot.second_count", "boot.second_value" })) return who == 8;
	if (in({ "boot.twice", "boot.runs", "boot.before_start" })) return who == 7 || who == 8;
	return key.compare(0, 5, "boot.") != 0 || who == 7;
}
static void parent(int ci, char** argv) {
	int p[2];
	if (pipe(p)) mon::harness_error("pipe");
	char a1[64], a2[64];
	snprintf(a1, sizeof a1, "--seed=%llu", (unsigned long long)mon::seed);
	snprintf(a2, sizeof a2, "child=%d", ci + 1);
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(p[1], 1);
		close(p[0]); close(p[1]);
		char a3[] = "--tier=quick", a4[] = "--cases=1";
		char exe[400];
		int n = (int)readlink("/proc/self/exe", exe, sizeof exe - 1);
		exe[n > 0 ? n : 0] = 0;
		const char* to = getenv("TSAN_OPTIONS");
		setenv("TSAN_OPTIONS", (std::string(to ? to : "") + ":atexit_sleep_ms=0").c_str(), 1);
		char a5[80] = "--";
		strncat(a5, a2, 60);
		char* av[] = { exe, a1, a3, a4, a5, NULL };
		execv(exe, av);
		_exit(127);
	}
	close(p[1]);
	std::string out;
	char buf[4096];
	for (;;) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) { if (n < 0 && errno == EINTR) continue; break; } out.append(buf, n); }
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	bool told = false;
	int who = mon::iarg("who", 7);
	unsigned long long sig = 0;
	int a = 0, b = 0, c = 0, d = 0, e = 0;
	bool ended = false;
	size_t pos = 0;
	while (pos < out.size()) {
		size_t nl = out.find('\n', pos);
		if (nl == std::string::npos) nl = out.size();
		std::string l = out.substr(pos, nl - pos);
		pos = nl + 1;
		if (l.compare(0, 4, "@@V ") == 0) {
			size_t bar = l.find('|');
			std::string key = l.substr(4, bar == std::string::npos ? bar : bar - 4);
			told = true;
			if (concerns(key, who)) mon::violation(key.c_str(), "%s", l.c_str() + (bar == std::string::npos ? 4 : bar + 1));
			else mon::count("boot.other_property");
		}
		else if (l.compare(0, 4, "@@H ") == 0 || l.compare(0, 4, "@@E ") == 0) { printf("\n%s\n", l.c_str()); fflush(stdout); _exit(7); }
		else if (l.compare(0, 4, "@@C ") == 0) ended = sscanf(l.c_str() + 4, "%llu %d %d %d %d %d", &sig, &a, &b, &c, &d, &e) == 6;
	}
	if (!told && (!ended || !WIFEXITED(st) || WEXITSTATUS(st) != 0)) {
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
		mon::violation("boot.crash", "the program of case %d ended with status %d", ci, code);
	}
	mon::eval();
	mon::cover(sig);
	mon::count("boot.programs");
	mon::count("boot.registered", a);
	mon::count("boot.loops", b);
	mon::count("boot.grown", c);
	mon::count("boot.second_hooks", d);
	if (ci < 3) mon::sample("%d call-backs and timers registered around the start of %d loops%s, each ran once", a, b, c ? " (grown)" : "");
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C07");
	int k = mon::iarg("child", 0);
	if (k) child(k - 1);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) parent(i, argv);
	mon::finish();
}
