// Races (C25): a crowd of activities of every kind in flight on several loops, with raw threads
// using the library's cross-thread operations at the same time. The race detector and the address
// and undefined-behaviour sanitizers judge; every operation is also counted in and out.
#include "mix.h"
#include "ksync.h"
#include "kstring.h"
using namespace mix;

static volatile int stop = 0, clock_on = 1;
static void* clock_main(void*) {
	while (mon_load32(&clock_on)) { mon::real_usleep(500); wrap::vclock_advance(6); }
	return NULL;
}
// ---- things everybody shares ---------------------------------------------------------------
struct Shared {
	kfiber_mutex* one;
	kfiber_mutex* three;
	kfiber_rwlock* rw;
	kfiber_cond* cond;
	kasync_worker* pool;
	kserver* server;
	int64_t plain, wide;                // guarded by `one`, by `rw`
	volatile int posted, ran, timers, fired, jobs, jobs_done, threads, threads_done, spawned, ended, waits, woken;
} sh;
static kev_result ran_cb(KOPAQUE, void* arg, int) { kx::edge_release(arg); mon_fetch_add32((volatile int*)arg, 1); return kev_ok; }
static kev_result sh_job(void* data, int msec) { mon_fetch_add32((volatile int*)data, 1); return kev_ok; }
static KTHREAD_FUNCTION sh_thread(void* arg) { mon_fetch_add32((volatile int*)arg, 1); KTHREAD_RETURN; }
// fibers that use the shared locks until the end
static void locker(Ctx* k) {
	volatile int64_t sink = 0;
	while (!mon_load32(&stop)) {
		switch (k->r.below(6)) {
		case 0: case 1:
			kfiber_mutex_lock(sh.one);
			sh.plain++;
			if (k->r.chance(1, 4)) kfiber_msleep(0);
			sh.plain++;
			kfiber_mutex_unlock(sh.one);
			break;
		case 2:
			if (kfiber_mutex_try_lock(sh.one, 3) == 0) { sh.plain += 2; kfiber_mutex_unlock(sh.one); }
			break;
		case 3:
			kfiber_mutex_lock(sh.three);
			if (k->r.chance(1, 3)) kfiber_msleep(0);
			kfiber_mutex_unlock(sh.three);
			break;
		case 4:
			kfiber_rwlock_wlock(sh.rw);
			sh.wide++;
			if (k->r.chance(1, 4)) kfiber_msleep(0);
			sh.wide++;
			kfiber_rwlock_wunlock(sh.rw);
			break;
		default:
			kfiber_rwlock_rlock(sh.rw);
			sink += sh.wide;
			if (k->r.chance(1, 4)) kfiber_msleep(0);
			kfiber_rwlock_runlock(sh.rw);
		}
		mon::count("shared_locks");
		if (k->r.chance(1, 3)) kfiber_msleep((int)k->r.below(2));
	}
	(void)sink;
	delete k;
}
static void waiter(Ctx* k) {
	while (!mon_load32(&stop)) {
		int got = 0;
		mon_fetch_add32(&sh.waits, 1);
		sh.cond->f->wait(sh.cond, &got);
		mon_fetch_add32(&sh.woken, 1);
		if (k->r.chance(1, 4)) kfiber_msleep(1);
	}
	delete k;
}
// a fiber hands itself to a fiber of another loop, which joins it
static void own_reference(Ctx& c) {
	volatile int n = 0;
	int k = 1 + (int)c.r.below(3);
	for (int i = 0; i < k; i++) {
		kselector* other = c.any();
		int pause = (int)c.r.below(3), pause2 = (int)c.r.below(3);
		kx::spawn(c.any(), [other, pause, pause2, &n, i](int) {
			kfiber* me = kfiber_ref_self(true);
			kx::spawn(other, [me, pause2, i](int) {
				int ret = 0;
				if (pause2) kfiber_msleep(pause2);
				kfiber_join(me, &ret);
				MON_CHECK(ret == i + 100, "race.join", "a join gave %d instead of %d", ret, i + 100);
				return 0;
			}, &n);
			if (pause) kfiber_msleep(pause);
			return i + 100;
		});
	}
	await(&n, k);
	mon::count("own_references", k);
}
// strings, addresses and memory handed from thread to thread
static kev_result drop_string(KOPAQUE, void* arg, int) { kgl_ref_str_t* s = (kgl_ref_str_t*)arg; volatile char x = s->data[0]; (void)x; kstring_release(s); mon_fetch_add32(&sh.ran, 1); return kev_ok; }
static void strings(Ctx& c) {
	kgl_ref_str_t* s = kstring_from2("shared by all", 13);
	for (int i = (int)c.r.below(8); i > 0; i--) { mon_fetch_add32(&sh.posted, 1); kgl_selector_module.next(c.any(), NULL, drop_string, kstring_refs(s), 0); }
	kstring_release(s);
	mon::count("strings");
}
// one server, referenced and released from everywhere
static void server_freed(void* p) { mon_fetch_add32((volatile int*)p, 1); }
static kev_result drop_server(KOPAQUE, void* arg, int) { kserver_release((kserver*)arg); mon_fetch_add32(&sh.ran, 1); return kev_ok; }
static kev_result pass_server(KOPAQUE, void* arg, int) {
	kserver* s = (kserver*)arg;
	for (int i = 0; i < 40; i++) kserver_refs(s);
	for (int i = 0; i < 41; i++) kserver_release(s);
	mon_fetch_add32(&sh.ran, 1);
	return kev_ok;
}
static void server_refs(Rng& r, kselector* at) {
	for (int i = (int)r.below(60); i > 0; i--) { kserver_refs(sh.server); kserver_refs(sh.server); kserver_release(sh.server); kserver_release(sh.server); }
	if (r.chance(1, 2)) { kserver_refs(sh.server); mon_fetch_add32(&sh.posted, 1); kgl_selector_module.next(at, NULL, r.chance(1, 2) ? pass_server : drop_server, sh.server, 0); }
	mon::count("server_references");
}
static kev_result drop_addr(KOPAQUE, void* arg, int) { kgl_addr_release((kgl_addr*)arg); mon_fetch_add32(&sh.ran, 1); return kev_ok; }
static void addresses(Ctx& c) {
	std::string h = "h" + std::to_string(c.r.below(6)) + ".test";
	kgl_addr* a = NULL;
	if (kfiber_net_getaddr(h.c_str(), &a) != 0 || !a) return;
	for (int i = (int)c.r.below(4); i > 0; i--) { kgl_addr_refs(a); mon_fetch_add32(&sh.posted, 1); kgl_selector_module.next(c.any(), NULL, drop_addr, a, 0); }
	kgl_addr_release(a);
	mon::count("addresses");
}
// a lookup that no thread could be started for is taken up with the next one
static void nudge(Ctx& c) {
	static volatile int ix = 0;
	std::string h = "n" + std::to_string(mon_fetch_add32(&ix, 1) % 500) + ".test";
	mon_fetch_add32(&sh.spawned, 1);
	kx::spawn(c.any(), [h](int) { kgl_addr* a = NULL; if (kfiber_net_getaddr(h.c_str(), &a) == 0 && a) kgl_addr_release(a); return 0; }, &sh.ended);
}
// ---- raw threads ---------------------------------------------------------------------------
static void* driver(void* arg) {
	Rng r((uint64_t)(uintptr_t)arg * 77 + mon::seed);
	Ctx c;
	for (int i = 0; i < kx::n_loops; i++) c.loops.push_back(get_selector_by_index(i));
	c.r = r;
	while (!mon_load32(&stop)) {
		switch (r.below(13)) {
		case 0: mon_fetch_add32(&sh.posted, 1); kgl_selector_module.next(c.any(), NULL, ran_cb, (void*)&sh.ran, 0); break;
		case 1: mon_fetch_add32(&sh.posted, 1); kgl_selector_module.next(get_perfect_selector(), NULL, ran_cb, (void*)&sh.ran, 0); break;
		case 2: mon_fetch_add32(&sh.spawned, 1); kx::spawn(c.any(), [](int) { kfiber_msleep(0); return 0; }, &sh.ended); break;
		case 3: mon_fetch_add32(&sh.timers, 1); kselector_add_timer_ts(c.any(), ran_cb, (void*)&sh.fired, (int)r.below(20), NULL); break;
		case 4: mon_fetch_add32(&sh.timers, 1); selector_manager_add_timer(ran_cb, (void*)&sh.fired, (int)r.below(20), NULL); break;
		case 5: { std::string h = "h" + std::to_string(r.below(6)) + ".test"; kgl_addr* a = kgl_find_cache_addr(h.c_str(), kgl_addr_ip); if (a) { mon::count("cache_hits"); kgl_addr_release(a); } break; }
		case 6: { int w, f; volatile int64_t x = kfiber_get_count(); kthread_get_count(&w, &f); x += kgl_get_addr_cache_count() + get_selector_count(); x += is_selector_manager_init(); (void)x; break; }
		case 7: if (kasync_worker_try_start(sh.pool, (void*)&sh.jobs_done, sh_job, r.chance(1, 2))) mon_fetch_add32(&sh.jobs, 1); if (r.chance(1, 4)) { kasync_worker_refs(sh.pool); kasync_worker_empty(sh.pool); kasync_worker_release(sh.pool); } break;
		case 8: for (int i = (int)r.below(4); i > 0; i--) { sh.cond->f->notice(sh.cond, i); mon::count("shared_notices"); } break;
		case 9: if (kthread_pool_start(sh_thread, (void*)&sh.threads_done)) mon_fetch_add32(&sh.threads, 1); if (r.chance(1, 6)) kthread_close_all_free(); if (r.chance(1, 3)) kthread_flush((int)r.below(3)); break;
		case 10: if (r.chance(1, 6)) nudge(c); if (r.chance(1, 4)) kgl_flush_addr_cache(r.chance(1, 2) ? 0 : 0x7fffffff); break;
		case 12: server_refs(r, c.any()); break;
		case 11: if ((uintptr_t)arg == 1 && r.chance(1, 20))       // (one thread keeps the clock)
				 { selector_manager_adjust_time((int64_t)r.below(3)); mon::count("clock_adjusted"); } break;
		}
		mon::count("driver_ops");
		if (r.chance(1, 4)) mon::real_usleep((int)r.below(300));
	}
	OPENSSL_thread_stop();
	return NULL;
}
static void settle(volatile int* done, volatile int* want, const char* what) {
	for (int t = 0; mon_load32(done) < mon_load32(want); t++) {
		if (t > 5000) { mon::violation("race.lost", "%d of %d %s were carried out", mon_load32(done), mon_load32(want), what); return; }
		mon::real_usleep(1000);
		if (t < 3000) mon::progress();
	}
	kx::edge_acquire(done);
	MON_CHECK(mon_load32(done) == mon_load32(want), "race.twice", "%d of %d %s were carried out", mon_load32(done), mon_load32(want), what);
}
// activities under way
static std::map<int, std::string> under_way;
static SpinLock uw_lk;
static void at(char* buf, size_t n) {
	std::string s;
	{ SpinGuard g(uw_lk); for (auto& k : under_way) s += std::to_string(k.first) + ":" + k.second + " "; }
	snprintf(buf, n, "under way: %s", s.c_str());
}
static void wait_activities(volatile int* done, int n) {
	int last = -1;
	int64_t since = mon::real_usec();
	while (mon_load32(done) < n) {
		int d = mon_load32(done);
		if (d != last) { last = d; since = mon::real_usec(); }
		if (mon::real_usec() - since > 60000000ll) mon::hung(60, d);
		mon::real_usleep(200);
	}
	kx::edge_acquire(done);
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C25");
	common();
	wrap::vclock_enable(kgl_current_msec);
	pthread_t ct, dt[4];
	if (pthread_create(&ct, NULL, clock_main, NULL)) mon::harness_error("thread");
	kx::jitter_on(mon::iarg("jitter", 60));
	kx::loops_start(mon::iarg("loops", 4));
	mon::on_hang = at;
	mon::watchdog(mon::iarg("dog", 90));
	int base_fibers = kfiber_get_count();
	sh.one = kfiber_mutex_init();
	sh.three = kfiber_mutex_init2(3);
	sh.rw = kfiber_rwlock_init();
	sh.cond = kfiber_cond_init_ts(true);
	sh.pool = kasync_worker_init(2, 4);
	volatile int server_gone = 0;
	sh.server = kserver_init();
	kserver_set_opaque(sh.server, server_freed, (void*)&server_gone);
	Rng r(mon::seed * 4099 + 5);
	Ctx c;
	c.managed = true;
	c.r = r;
	for (int i = 0; i < kx::n_loops; i++) c.loops.push_back(get_selector_by_index(i));
	volatile int lockers = 0, waiters = 0, done = 0;
	int nl = kx::n_loops * 2, nw = kx::n_loops;
	for (int i = 0; i < nl; i++) { Ctx* k = new Ctx(c.fork()); kx::spawn(c.loops[i % kx::n_loops], [k](int) { locker(k); return 0; }, &lockers); }
	for (int i = 0; i < nw; i++) { Ctx* k = new Ctx(c.fork()); kx::spawn(c.loops[i % kx::n_loops], [k](int) { waiter(k); return 0; }, &waiters); }
	int nd = mon::iarg("drivers", 3);
	for (int i = 0; i < nd; i++) if (pthread_create(&dt[i], NULL, driver, (void*)(uintptr_t)(i + 1))) mon::harness_error("thread");
	int only = -1;
	const char* ok = mon::arg("kind", "");
	for (int i = 0; i < NKINDS; i++) if (!strcmp(ok, kinds[i].name)) only = i;
	int conc = mon::iarg("conc", 6);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		wait_activities(&done, i - conc + 1);
		if (i % 8 == 0) {
			int f = 0;
			if (r.chance(1, 2)) for (int b = 1; b <= F_DNS; b <<= 1) if (r.chance(1, 3)) f |= b;
			mon_store32(&faults, f & ~(F_FDS | F_EPOLL));
		}
		int k = only >= 0 ? only : pick(r), extra = (int)r.below(8);
		mon::set_case("activity %d: %s", i, kinds[k].name);
		Ctx* x = new Ctx(c.fork());
		{ SpinGuard g(uw_lk); under_way[i] = kinds[k].name; }
		kx::spawn(c.any(), [k, x, extra, i](int) {
			if (extra == 0) own_reference(*x);
			if (extra == 1) strings(*x);
			if (extra == 2) addresses(*x);
			kinds[k].fn(*x);
			mon::eval();
			mon::count((std::string("activity.") + kinds[k].name).c_str());
			delete x;
			{ SpinGuard g(uw_lk); under_way.erase(i); }
			return 0;
		}, &done);
		mon::cover(mon::hash((uint64_t)k, c.r.next()));
	}
	mon::set_case("ending");
	wait_activities(&done, mon::cases);
	mon_store32(&faults, 0);
	mon_store32(&stop, 1);
	for (int i = 0; i < nd; i++) pthread_join(dt[i], NULL);
	kx::wait_done(&lockers, nl);
	while (mon_load32(&waiters) < nw) { sh.cond->f->notice(sh.cond, 0); mon::real_usleep(300); }
	kx::edge_acquire(&waiters);
	settle(&sh.ran, &sh.posted, "posts");
	settle(&sh.fired, &sh.timers, "timers");
	MON_CHECK(sh.server->refs == 1 && !mon_load32(&server_gone), "race.server", "a server has %d references, not one%s", (int)sh.server->refs, mon_load32(&server_gone) ? " and was freed" : "");
	kserver_release(sh.server);
	MON_CHECK(mon_load32(&server_gone) == 1, "race.server", "a server was freed %d times", mon_load32(&server_gone));
	for (int t = 0; t < 500 && mon_load32(&sh.ended) < mon_load32(&sh.spawned); t++) { nudge(c); mon::real_usleep(5000); }
	settle(&sh.ended, &sh.spawned, "fibers");
	settle(&sh.threads_done, &sh.threads, "thread starts");
	while (mon_load32(&sh.jobs_done) < mon_load32(&sh.jobs)) { if (kasync_worker_try_start(sh.pool, (void*)&sh.jobs_done, sh_job, false)) mon_fetch_add32(&sh.jobs, 1); mon::real_usleep(500); }
	settle(&sh.jobs_done, &sh.jobs, "jobs");
	mon::count("posts", mon_load32(&sh.posted));
	mon::count("timers", mon_load32(&sh.timers));
	mon::count("thread_starts", mon_load32(&sh.threads));
	mon::count("pool_jobs", mon_load32(&sh.jobs));
	mon::count("shared_waits", mon_load32(&sh.woken));
	kasync_worker_release(sh.pool);
	for (int t = 0; kfiber_get_count() > base_fibers; t++) {
		if (t > 5000) { mon::violation("race.fibers", "%d fibers never ended", kfiber_get_count() - base_fibers); break; }
		mon::real_usleep(1000);
	}
	MON_CHECK(sh.plain % 2 == 0, "race.guarded", "guarded data were left halfway");
	kfiber_mutex_destroy(sh.one);
	kfiber_mutex_destroy(sh.three);
	kfiber_rwlock_destroy(sh.rw);
	sh.cond->f->release(sh.cond);
	mon_store32(&clock_on, 0);
	pthread_join(ct, NULL);
	mon::finish();
}
