// C06 worker pools, C07 posts to event loops, C08 timers and ticks, C23 thread events, C24 spin rwlocks
#include <climits>
#include "kx.h"
#include <dirent.h>
#include "ksync.h"
using namespace kx;
static int nloops;
// pthread_t values are reused; these are not
static volatile int tid_next = 0;
static __thread int tid_mine;
static int my_tid() { if (!tid_mine) tid_mine = mon_fetch_add32(&tid_next, 1) + 1; return tid_mine; }

// data the poster wrote before posting: watched by the race detector
static __attribute__((noinline)) int64_t probe_read(volatile int64_t* p) { return *(int64_t*)p; }
static __attribute__((noinline)) void probe_write(volatile int64_t* p, int64_t v) { *(int64_t*)p = v; }

// ===================================================================== posts
struct Msg {
	int id, target, hops, got;
	uintptr_t data;
	int64_t payload[4];
	volatile int runs = 0;
	volatile int* done;
	uint64_t seed;
	volatile int* trace;
};
static kev_result on_msg(KOPAQUE data, void* arg, int got);
static void send_msg(Msg* m) {
	for (int i = 0; i < 4; i++) probe_write(&m->payload[i], (int64_t)(m->seed + i * 31 + m->hops));
	kgl_selector_module.next(get_selector_by_index(m->target), (KOPAQUE)m->data, on_msg, m, m->got);
}
static kev_result on_msg(KOPAQUE data, void* arg, int got) {
	Msg* m = (Msg*)arg;
	int l = my_loop();
	if (l != m->target || !pthread_equal(pthread_self(), get_selector_by_index(m->target)->thread_id)) mon::violation("post:thread", "posted to loop %d, ran on loop %d", m->target, l);
	if ((uintptr_t)data != m->data || got != m->got) mon::violation("post:args", "data or result changed on the way");
	int r = mon_fetch_add32(&m->runs, 1);
	if (r != m->seed % 7 - m->hops) {}
	for (int i = 0; i < 4; i++) if (probe_read(&m->payload[i]) != (int64_t)(m->seed + i * 31 + m->hops)) { mon::violation("post:visibility", "the poster's writes are not visible"); break; }
	mon_store32(m->trace, (int)mon::hash(*m->trace, m->id));
	mon::progress();
	if (m->hops > 0) {
		m->hops--;
		Rng q(mon::hash(m->seed, m->hops));
		m->target = q.below(nloops);
		m->got = (int)q.next();
		m->data = (uintptr_t)q.next();
		if (q.chance(1, 4)) spin(q.below(2000));
		send_msg(m);
		return kev_ok;
	}
	signal_done(m->done);
	return kev_ok;
}
struct Poster { std::vector<Msg*> m; uint64_t seed; };
static void* poster_thread(void* a) {
	Poster* p = (Poster*)a;
	Rng q(p->seed);
	for (Msg* m : p->m) {
		if (q.chance(1, 5)) mon::real_usleep(q.below(300));
		send_msg(m);
	}
	return NULL;
}
static int infinite_tmo(int ep, int tmo) { return -1; }
static void post_case(int ci) {
	Rng r = rng_for(41, ci);
	int np = r.range(1, 6);
	volatile int done = 0, trace = 0;
	std::vector<Msg*> all;
	std::vector<int> hops;
	std::vector<Poster> ps(np);
	for (int p = 0; p < np; p++) {
		ps[p].seed = r.next();
		int n = r.chance(1, 5) ? r.range(50, 300) : r.range(1, 12);
		for (int i = 0; i < n; i++) {
			Msg* m = new Msg();
			m->id = (int)all.size();
			m->target = r.below(nloops);
			m->hops = r.chance(1, 3) ? r.range(1, 6) : 0;
			m->got = (int)r.next();
			m->data = (uintptr_t)r.next();
			m->done = &done;
			m->seed = r.next() >> 8;
			m->trace = &trace;
			all.push_back(m);
			hops.push_back(m->hops);
			ps[p].m.push_back(m);
		}
	}
	mon::set_case("post seed=%llu case=%d posters=%d messages=%zu", (unsigned long long)mon::seed, ci, np, all.size());
	std::vector<pthread_t> t(np);
	for (int p = 0; p < np; p++) pthread_create(&t[p], NULL, poster_thread, &ps[p]);
	wait_done(&done, (int)all.size());
	for (int p = 0; p < np; p++) pthread_join(t[p], NULL);
	mon::real_usleep(300);
	int runs = 0;
	for (size_t i = 0; i < all.size(); i++) {
		if (all[i]->runs != hops[i] + 1) mon::violation("post:count", "callback ran %d times for %d posts", all[i]->runs, hops[i] + 1);
		runs += all[i]->runs;
		delete all[i];
	}
	mon::eval();
	mon::cover(mon::hash(trace, all.size()));
	mon::count("posts", runs);
	if (ci < 3) mon::sample("%d threads posted %zu messages, %d callbacks incl. re-posts, loops blocked without time-out", np, all.size(), runs);
}

// ===================================================================== posts beside callbacks that post themselves again
struct Busy { int target, other; volatile int* stop; volatile int64_t* turns; volatile int* gone; };
static volatile int64_t fair_turns[64];
static kev_result on_busy(KOPAQUE data, void* arg, int got) {
	Busy* b = (Busy*)arg;
	mon_fetch_add(&fair_turns[my_loop()], 1);
	if (mon_load32(b->stop)) { signal_done(b->gone); return kev_ok; }
	int to = b->target;
	if (b->other >= 0 && got % 2) to = b->other;
	kgl_selector_module.next(get_selector_by_index(to), NULL, on_busy, b, got + 1);
	return kev_ok;
}
struct Victim { int target; volatile int64_t after; volatile int ran; volatile int* done; };
static kev_result on_victim(KOPAQUE data, void* arg, int got) {
	Victim* v = (Victim*)arg;
	int64_t after = mon_load(&v->after), now = mon_fetch_add(&fair_turns[my_loop()], 1);
	if (after >= 0) {
		mon::count("fair.waited_turns", now - after);
		MON_CHECK(now - after < 4000, "post:starved", "%lld other callbacks of the loop ran while a posted one was waiting", (long long)(now - after));
	} else mon::count("fair.at_once");
	mon_store32(&v->ran, 1);
	signal_done(v->done);
	return kev_ok;
}
static void fair_case(int ci) {
	Rng r = rng_for(47, ci);
	int nb = r.range(1, 4), np = r.range(1, 3);
	volatile int stop = 0, gone = 0, done = 0;
	std::vector<Busy> bs(nb);
	mon::set_case("fair case=%d busy=%d", ci, nb);
	for (Busy& b : bs) { b.target = r.below(nloops); b.other = r.chance(1, 3) ? r.below(nloops) : -1; b.stop = &stop; b.gone = &gone; }
	for (Busy& b : bs) kgl_selector_module.next(get_selector_by_index(b.target), NULL, on_busy, &b, 0);
	std::vector<Victim*> all;
	struct P { std::vector<Victim*> v; uint64_t seed; };
	std::vector<P> ps(np);
	for (P& p : ps) {
		p.seed = r.next();
		int n = r.range(1, 15);
		for (int i = 0; i < n; i++) {
			Victim* v = new Victim{ r.chance(3, 4) ? bs[r.below(nb)].target : (int)r.below(nloops), -1, 0, &done };
			p.v.push_back(v); all.push_back(v);
		}
	}
	std::vector<pthread_t> t(np);
	for (int i = 0; i < np; i++) pthread_create(&t[i], NULL, [](void* a) -> void* {
		P* p = (P*)a;
		Rng q(p->seed);
		for (Victim* v : p->v) {
			kgl_selector_module.next(get_selector_by_index(v->target), NULL, on_victim, v, 0);
			mon_fetch_add(&v->after, mon_load(&fair_turns[v->target]) + 1);   // it was -1
			if (q.chance(1, 2)) mon::real_usleep(q.below(200));
		}
		return NULL;
	}, &ps[i]);
	for (int i = 0; i < np; i++) pthread_join(t[i], NULL);
	while (mon_load32(&done) < (int)all.size() && !mon::violated()) {
		for (Victim* v : all) if (!mon_load32(&v->ran)) {
			int64_t n = mon_load(&fair_turns[v->target]) - mon_load(&v->after);
			if (!mon_load32(&v->ran)) MON_CHECK(n < 100000, "post:starved", "a posted callback was not run while %lld others of its loop were", (long long)n);
		}
		mon::real_usleep(100);
	}
	mon_store32(&stop, 1);
	wait_done(&gone, nb);
	wait_done(&done, (int)all.size());
	for (Victim* v : all) delete v;
	mon::count("fair.posts", all.size());
	mon::cover(mon::hash(mon::hash(nb, np), all.size()));
	mon::eval();
}

// ===================================================================== worker pools
struct Job {
	struct Pool* p;
	int id;
	uint64_t seed;
	int submitter;
	volatile int runs = 0;
	volatile int started = 0;
	volatile int* needs = NULL;
	bool high = false;
	int64_t payload = 0;
};
struct Pool {
	volatile int running = 0, maxrun = 0, limit = 1, done = 0;
	volatile int gate = 1;
	SpinLock lk;
	std::vector<int> order;
};
static volatile int live_jobs;
static kev_result on_job(void* data, int msec) {
	Job* j = (Job*)data;
	Pool* p = j->p;
	int n = mon_fetch_add32(&p->running, 1) + 1;
	if (n > p->limit) mon::violation("worker:limit", "%d jobs at a time, pool has %d workers", n, p->limit);
	if (n > p->maxrun) mon_store32(&p->maxrun, n);
	if (mon_fetch_add32(&j->runs, 1)) mon::violation("worker:twice", "job ran twice");
	if (my_tid() == j->submitter) mon::violation("worker:thread", "job ran on the submitting thread");
	if (probe_read(&j->payload) != (int64_t)(j->seed ^ 0x55)) mon::violation("worker:visibility", "job does not see what the submitter wrote");
	{ SpinGuard g(p->lk); p->order.push_back(j->id); }
	mon_store32(&j->started, 1);
	while (!mon_load32(&p->gate)) mon::real_usleep(100);
	// the waiting form returns when there is room, and there is once this job has been taken: a job may need its submitter
	while (j->needs && !mon_load32(j->needs)) mon::real_usleep(50);
	Rng q(j->seed);
	if (q.chance(1, 2)) spin(q.below(5000)); else if (q.chance(1, 3)) mon::real_usleep(q.below(200));
	mon_fetch_add32(&p->running, -1);
	mon::progress();
	signal_done(&p->done);
	return kev_ok;
}
static Job* new_job(Pool* p, int id, uint64_t seed, bool high) {
	Job* j = new Job();
	j->p = p; j->id = id; j->seed = seed; j->high = high;
	j->submitter = my_tid();
	probe_write(&j->payload, (int64_t)(seed ^ 0x55));
	return j;
}
struct StartArg { kasync_worker* w; Job* j; volatile int returned; };
static void* start_thread(void* a) {
	StartArg* s = (StartArg*)a;
	s->j->submitter = my_tid();
	kasync_worker_start(s->w, s->j, on_job);
	mon_store32(&s->returned, 1);
	return NULL;
}
// what the pool reports, read the way its own code does
static int wk_queue(kasync_worker* w) { kmutex_lock(&w->lock); int n = w->queue; kmutex_unlock(&w->lock); return n; }
static int wk_workers(kasync_worker* w) { kmutex_lock(&w->lock); int n = w->worker; kmutex_unlock(&w->lock); return n; }
static int wk_refs(kasync_worker* w) { return mon_load32((volatile int*)&w->refs); }
// exact model: one worker held at a gate while jobs are queued
static void worker1_case(int ci) {
	Rng r = rng_for(42, ci);
	int Q = r.chance(1, 4) ? 0 : r.range(1, 5);
	mon::set_case("worker1 seed=%llu case=%d queue-limit=%d", (unsigned long long)mon::seed, ci, Q);
	bool reset_limits = r.chance(1, 3);
	kasync_worker* w = reset_limits ? kasync_worker_init(r.range(2, 6), r.below(9)) : kasync_worker_init(1, Q);
	if (reset_limits) { kasync_worker_set(w, 1, Q); mon::count("worker.limits_set"); }
	if (kasync_worker_will_wait(w)) mon::violation("worker:will-wait", "an idle pool says a job would wait");
	if (!kasync_worker_empty(w)) mon::violation("worker:empty", "a new pool is not empty");
	Pool p;
	p.gate = 0;
	std::vector<Job*> jobs;
	std::vector<int> model;        // ids in expected order
	int id = 0, refused = 0, waited = 0;
	Job* first = new_job(&p, id++, r.next(), false);
	jobs.push_back(first);
	if (!kasync_worker_try_start(w, first, on_job, false)) mon::violation("worker:refused", "an empty pool refused a job");
	mon::wait_ge(&first->started, 1);
	if (!kasync_worker_will_wait(w)) mon::violation("worker:will-wait", "the only worker is busy and a job would not wait");
	int n = r.range(1, 12);
	std::vector<StartArg*> starts;
	std::vector<pthread_t> threads;
	for (int i = 0; i < n; i++) {
		bool high = r.chance(1, 3);
		Job* j = new_job(&p, id++, r.next(), high);
		bool over = Q > 0 && (int)model.size() > Q;
		if (r.chance(1, 5) && threads.size() < 3) {
			// the waiting form: returns at once when there is room, else when the job's turn comes
			StartArg* s = new StartArg{ w, j, 0 };
			j->needs = &s->returned;
			pthread_t t;
			pthread_create(&t, NULL, start_thread, s);
			model.push_back(j->id);
			jobs.push_back(j);
			if (over) {
				mon::real_usleep(3000);
				if (s->returned) mon::violation("worker:no-wait", "a submission over the queue bound returned while nothing could run");
				waited++;
			}
			// wait until it is queued
			for (int k = 0; wk_queue(w) < (int)model.size(); k++) { mon::real_usleep(100); if (k > 100000) mon::violation("worker:lost", "job was not queued"); }
			starts.push_back(s);
			threads.push_back(t);
			continue;
		}
		bool ok = kasync_worker_try_start(w, j, on_job, high);
		if (ok == over) mon::violation("worker:bound", "queue-limit=%d waiting=%zu: submission %s", Q, model.size(), ok ? "accepted" : "refused");
		if (!ok) { refused++; mon::real_usleep(100); if (j->runs) mon::violation("worker:refused-ran", "a refused job ran"); jobs.push_back(j); j->id = -1; continue; }
		if (high && !model.empty()) model.insert(model.begin(), j->id); else model.push_back(j->id);
		jobs.push_back(j);
	}
	if (kasync_worker_empty(w) != model.empty()) mon::violation("worker:empty", "empty() disagrees with the queue");
	bool early = r.chance(1, 2);
	if (early) kasync_worker_release(w);  // the pool lives on until its jobs are done
	mon_store32(&p.gate, 1);
	wait_done(&p.done, 1 + (int)model.size());
	for (auto t : threads) pthread_join(t, NULL);
	for (size_t i = 0; i < starts.size(); i++) delete starts[i];
	model.insert(model.begin(), 0);
	if (p.order != model) {
		std::string a, b;
		for (int x : p.order) a += std::to_string(x) + " ";
		for (int x : model) b += std::to_string(x) + " ";
		mon::violation("worker:order", "jobs ran in order %s, expected %s", a.c_str(), b.c_str());
	}
	if (!early) {
		for (int k = 0; wk_refs(w) != 1; k++) { mon::real_usleep(100); if (k > 100000) { mon::violation("worker:refs", "pool keeps %d references", wk_refs(w)); break; } }
		edge_acquire(&p.done);
		kasync_worker_release(w);
	}
	uint64_t sig = Q;
	for (int x : model) sig = mon::hash(sig, x);
	mon::real_usleep(200);
	for (Job* j : jobs) { if (j->runs != (j->id >= 0)) mon::violation("worker:runs", "job ran %d times", j->runs); delete j; }
	mon::eval();
	mon::cover(mon::hash(sig, refused * 8 + waited));
	mon::count("worker.jobs", model.size());
	mon::count("worker.refused", refused);
	mon::count("worker.waited", waited);
	if (ci < 3) mon::sample("single worker, bound %d: %zu jobs in the expected order, %d refused, %d had to wait", Q, model.size(), refused, waited);
}
// many submitters
static volatile int fault_den = 0, faults = 0;
static uint64_t fault_seed;
static SpinLock fault_lk;
static bool create_fault(int* err) {
	if (!fault_den) return false;
	SpinGuard g(fault_lk);
	fault_seed = mon::hash(fault_seed, 77);
	if ((fault_seed >> 16) % fault_den) return false;
	faults++;
	*err = EAGAIN;
	return true;
}
struct Sub { kasync_worker* w; Pool* p; int n; uint64_t seed; bool wait_ok; std::vector<Job*> jobs; int accepted = 0, refused = 0; };
static void* submit_thread(void* a) {
	Sub* s = (Sub*)a;
	Rng q(s->seed);
	for (int i = 0; i < s->n; i++) {
		Job* j = new_job(s->p, i, q.next(), false);
		s->jobs.push_back(j);
		if (s->wait_ok && q.chance(1, 3)) { kasync_worker_start(s->w, j, on_job); s->accepted++; j->started |= 2; }
		else if (kasync_worker_try_start(s->w, j, on_job, q.chance(1, 4))) { s->accepted++; j->started |= 2; }
		else { s->refused++; j->id = -1; }
		if (q.chance(1, 4)) mon::real_usleep(q.below(100));
	}
	return NULL;
}
static void workern_case(int ci, bool fault) {
	Rng r = rng_for(43 + fault, ci);
	int W = r.range(1, 5), Q = r.chance(1, 3) ? 0 : r.range(1, 6);
	mon::set_case("workern seed=%llu case=%d workers=%d queue-limit=%d faults=%d", (unsigned long long)mon::seed, ci, W, Q, fault);
	bool reset_limits = r.chance(1, 3);
	kasync_worker* w = reset_limits ? kasync_worker_init(r.range(1, 8), r.below(9)) : kasync_worker_init(W, Q);
	if (reset_limits) { kasync_worker_set(w, W, Q); mon::count("worker.limits_set"); }
	Pool p;
	p.limit = W;
	if (r.chance(1, 3)) p.gate = 0;
	int ns = r.range(1, 5);
	std::vector<Sub> subs(ns);
	std::vector<pthread_t> t(ns);
	for (int i = 0; i < ns; i++) {
		subs[i].w = w; subs[i].p = &p; subs[i].n = r.range(1, 20); subs[i].seed = r.next();
		subs[i].wait_ok = !fault && (p.gate || Q == 0);
		pthread_create(&t[i], NULL, submit_thread, &subs[i]);
	}
	if (fault) {
		// idle threads of the pool would hide the failing thread creation
		kthread_close_all_free();
		fault_seed = r.next();
		mon_store32(&fault_den, r.range(1, 3));
	}
	for (int i = 0; i < ns; i++) pthread_join(t[i], NULL);
	mon_store32(&fault_den, 0);
	int accepted = 0, refused = 0;
	for (auto& s : subs) { accepted += s.accepted; refused += s.refused; }
	std::vector<Job*> extra;
	if (fault) {
		// once threads can be started again everything that was accepted runs
		for (int k = 0; k < 200000 && p.done < accepted; k++) {
			if (k % 20 == 0) {
				Job* j = new_job(&p, 1000, r.next(), false);
				extra.push_back(j);
				if (kasync_worker_try_start(w, j, on_job, false)) accepted++; else j->id = -1;
				if (p.gate == 0) mon_store32(&p.gate, 1);
			}
			mon::real_usleep(200);
		}
	}
	mon_store32(&p.gate, 1);
	wait_done(&p.done, accepted);
	for (int k = 0; wk_refs(w) != 1 || wk_workers(w) != 0; k++) {
		mon::real_usleep(100);
		if (k > 100000) { mon::violation("worker:refs", "idle pool keeps %d references, %d workers", wk_refs(w), wk_workers(w)); break; }
	}
	if (w->queue != 0 || w->head != NULL || w->last != NULL) mon::violation("worker:queue", "idle pool reports %d queued jobs", w->queue);
	if (kasync_worker_will_wait(w) || !kasync_worker_empty(w)) mon::violation("worker:will-wait", "an idle pool says a job would wait");
	kasync_worker_release(w);
	for (auto& s : subs) for (Job* j : s.jobs) { if (j->runs != (j->id >= 0)) mon::violation("worker:runs", "job ran %d times, %s", j->runs, j->id >= 0 ? "accepted" : "refused"); delete j; }
	for (Job* j : extra) { if (j->runs != (j->id >= 0)) mon::violation("worker:runs", "job ran %d times", j->runs); delete j; }
	uint64_t sig = mon::hash(W * 16 + Q, p.maxrun);
	for (int x : p.order) sig = mon::hash(sig, x);
	mon::eval();
	mon::cover(sig);
	mon::count("worker.jobs", accepted);
	mon::count("worker.refused", refused);
	if (p.maxrun == W && W > 1) mon::count("worker.full_pools");
	if (fault) { mon::count("worker.thread_faults", faults); faults = 0; }
	if (ci < 2) mon::sample("%d submitters, %d workers, bound %d: %d accepted, %d refused, up to %d at a time", ns, W, Q, accepted, refused, p.maxrun);
}
// ===================================================================== thread pool
struct PoolJob { volatile int runs = 0; int64_t payload = 0; uint64_t seed; int submitter; volatile int* done; int kind; volatile int* hold; };
static void pool_body(PoolJob* j) {
	if (mon_fetch_add32(&j->runs, 1)) mon::violation("pool:twice", "thread function ran twice");
	if (my_tid() == j->submitter) mon::violation("pool:thread", "ran on the submitting thread");
	if (probe_read(&j->payload) != (int64_t)(j->seed ^ 0x55)) mon::violation("pool:visibility", "does not see what the submitter wrote");
	Rng q(j->seed);
	if (q.chance(1, 2)) mon::real_usleep(q.below(300));
	while (j->hold && !mon_load32(j->hold)) mon::real_usleep(100);
	mon::progress();
	signal_done(j->done);
}
static KTHREAD_FUNCTION pool_fn(void* a) { pool_body((PoolJob*)a); KTHREAD_RETURN; }
static kev_result pool_cb(void* a, int) { pool_body((PoolJob*)a); return kev_ok; }
static int thread_total() {
	int n = 0;
	DIR* d = opendir("/proc/self/task");
	while (readdir(d)) n++;
	closedir(d);
	return n - 2;
}
static void pool_case(int ci) {
	Rng r = rng_for(45, ci);
	int w0, f0, w1, f1;
	kthread_get_count(&w0, &f0);
	int n = r.range(1, 20);
	bool fault = r.chance(1, 3);
	mon::set_case("pool seed=%llu case=%d n=%d fault=%d", (unsigned long long)mon::seed, ci, n, fault);
	if (r.chance(1, 4)) kthread_close_all_free();
	volatile int done = 0, hold = 1;
	bool held = r.chance(1, 3);
	if (held) hold = 0;
	std::vector<PoolJob*> jobs;
	int ok = 0, failed = 0;
	if (fault) { fault_seed = r.next(); mon_store32(&fault_den, 2); }
	for (int i = 0; i < n; i++) {
		PoolJob* j = new PoolJob();
		j->seed = r.next();
		j->submitter = my_tid();
		j->done = &done;
		j->kind = r.below(3);
		j->hold = held && j->kind != 2 ? &hold : NULL;
		probe_write(&j->payload, (int64_t)(j->seed ^ 0x55));
		jobs.push_back(j);
		bool b = j->kind == 0 ? kthread_pool_start(pool_fn, j) : j->kind == 1 ? kasync_worker_thread_start(j, pool_cb) : kthread_start(pool_fn, j);
		if (b) { ok++; mon_store32((volatile int*)&j->kind, j->kind | 16); } else failed++;
		if (r.chance(1, 3)) mon::real_usleep(r.below(400));
	}
	mon_store32(&fault_den, 0);
	faults = 0;
	if (held) {
		int pooled = 0;
		for (auto j : jobs) if ((j->kind & 16) && (j->kind & 3) != 2) pooled++;
		kthread_get_count(&w1, &f1);
		if (w1 != w0 + pooled) mon::violation("pool:working", "%d pool threads report work, %d are held", w1 - w0, pooled);
		mon_store32(&hold, 1);
	}
	wait_done(&done, ok);
	for (int k = 0;; k++) {
		kthread_get_count(&w1, &f1);
		if (w1 == w0) break;
		mon::real_usleep(100);
		if (k > 100000) { mon::violation("pool:count", "work count %d, was %d", w1, w0); break; }
	}
	for (auto j : jobs) { if (j->runs != !!(j->kind & 16)) mon::violation("pool:runs", "ran %d times, start %s", j->runs, j->kind & 16 ? "succeeded" : "failed"); delete j; }
	if (r.chance(1, 4)) {
		// idle threads go away after a minute, not before, and the pool still works
		int before = f1, keep = r.below(3);
		int64_t now = (int64_t)time(NULL) * 1000;
		wrap::vclock_enable(now);
		wrap::vclock_advance(30 * 1000);
		kthread_flush(keep);
		kthread_get_count(&w1, &f1);
		if (f1 != before) mon::violation("pool:flush-early", "flush ended threads idle for less than a minute: %d -> %d", before, f1);
		wrap::vclock_advance(100 * 1000);
		kthread_flush(keep);
		kthread_get_count(&w1, &f1);
		if (f1 != std::min(before, keep)) mon::violation("pool:flush", "flush(%d) left %d of %d idle threads", keep, f1, before);
		wrap::vclock_disable();
		mon::count("pool.flushes");
	}
	mon::eval();
	mon::cover(mon::hash(r.next(), f1));
	mon::count("pool.started", ok);
	mon::count("pool.start_failed", failed);
}
// ===================================================================== thread calls of fibers
struct TC { uint64_t seed; volatile int runs = 0; pthread_t loop; int len; int64_t payload; };
static int tc_value(uint64_t s) { return s % 5 == 0 ? -(int)(s / 5 % 3) : (int)s; }     // what failing calls return, too
static int tc_fn(void* a, int len) {
	TC* t = (TC*)a;
	if (mon_fetch_add32(&t->runs, 1)) mon::violation("tcall:twice", "job ran twice");
	if (pthread_equal(pthread_self(), t->loop)) mon::violation("tcall:thread", "job ran on the event loop");
	if (len != t->len) mon::violation("tcall:arg", "argument changed");
	if (probe_read(&t->payload) != (int64_t)t->seed) mon::violation("tcall:visibility", "job does not see the fiber's writes");
	Rng q(t->seed);
	if (q.chance(1, 2)) mon::real_usleep(q.below(500)); else spin(q.below(3000));
	probe_write(&t->payload, (int64_t)(t->seed * 3));
	return tc_value(t->seed);
}
static void tcall_case(int ci) {
	Rng r = rng_for(46, ci);
	int nf = r.range(1, 12);
	bool fault = r.chance(1, 3);
	mon::set_case("tcall seed=%llu case=%d fibers=%d fault=%d", (unsigned long long)mon::seed, ci, nf, fault);
	volatile int done = 0, ok = 0, fail = 0, order = 0;
	if (fault) { kthread_close_all_free(); fault_seed = r.next(); mon_store32(&fault_den, 2); }
	for (int f = 0; f < nf; f++) {
		uint64_t fs = r.next();
		int loop = r.below(nloops);
		spawn(get_selector_by_index(loop), [fs, loop, &ok, &fail, &order, f](int) {
			Rng q(fs);
			int n = q.range(1, 6);
			for (int i = 0; i < n; i++) {
				TC t;
				t.seed = q.next() >> 2;
				t.len = (int)q.next();
				t.loop = pthread_self();
				probe_write(&t.payload, (int64_t)t.seed);
				int ret = -12345;
				bool want = !q.chance(1, 6);
				int rc = kfiber_thread_call(tc_fn, &t, t.len, want ? &ret : NULL);
				if (my_loop() != loop) mon::violation("tcall:return-thread", "the caller continued on another loop");
				if (rc == 0) {
					mon_fetch_add32(&ok, 1);
					if (t.runs != 1) mon::violation("tcall:runs", "returned with the job run %d times", t.runs);
					if (want && ret != tc_value(t.seed)) mon::violation("tcall:result", "got %d", ret);
					if (probe_read(&t.payload) != (int64_t)(t.seed * 3)) mon::violation("tcall:visibility", "the fiber does not see the job's writes");
				} else {
					mon_fetch_add32(&fail, 1);
					mon::real_usleep(300);
					if (t.runs) mon::violation("tcall:failed-ran", "a failed call ran its job");
				}
				mon_store32(&order, (int)mon::hash(order, f));
				if (q.chance(1, 3)) yield_fiber();
				mon::progress();
			}
			return 0;
		}, &done);
	}
	wait_done(&done, nf);
	mon_store32(&fault_den, 0);
	faults = 0;
	mon::eval();
	mon::cover(mon::hash(order, ok));
	mon::count("tcall.ok", ok);
	mon::count("tcall.failed", fail);
	if (fail && !fault) mon::violation("tcall:refused", "thread call failed without a reason");
}
// ===================================================================== timers, exact single-step model
struct T1 {
	int64_t now = 0;                 // time the loop knows
	std::multimap<int64_t, int> pending;   // deadline -> id
	std::map<int, std::multimap<int64_t, int>::iterator> by_id;
	std::map<int, uintptr_t> data;
	int next_id = 1;
	int64_t last_deadline = 0;
	bool in_turn = false;
	int64_t turn_now = 0;
	uint64_t trace = 0;
	Rng r;
	int fired = 0, added = 0, from_cb = 0, shared = 0;
	std::set<int> added_this_turn;
	// ticks
	struct Tick { kselector_tick* t; int id, calls, ret; bool open; int close_other; };
	std::vector<Tick*> ticks;
	int min_ret = 0;
	int tmo_seen = -100;
};
static T1* T;
static kev_result t1_fire(KOPAQUE data, void* arg, int got);
static void t1_add(int delay) {
	int id = T->next_id++;
	int64_t dl = T->now + delay;
	if (T->pending.count(dl)) T->shared++;
	T->by_id[id] = T->pending.insert(std::make_pair(dl, id));
	T->data[id] = (uintptr_t)mon::hash(id, 5);
	if (T->in_turn) { T->added_this_turn.insert(id); T->from_cb++; }
	T->added++;
	if (T->r.chance(1, 4)) kselector_add_timer_ts(kgl_get_tls_selector(), t1_fire, (void*)(intptr_t)id, delay, (KOPAQUE)T->data[id]);
	else if (kselector_add_timer(kgl_get_tls_selector(), t1_fire, (void*)(intptr_t)id, delay, (KOPAQUE)T->data[id]) != 0) mon::violation("timer:add", "adding a timer failed");
}
static int t1_delay() {
	if (T->r.chance(1, 12)) {       // hours to weeks
		mon::count("timer.long");
		return T->r.chance(1, 4) ? INT_MAX - (int)T->r.below(3) : (int)(T->r.next() >> (33 + T->r.below(8)));
	}
	switch (T->r.below(6)) {
	case 0: return 0;
	case 1: return T->r.below(5);
	case 2: return T->r.below(50);
	case 3: return T->r.below(2000);
	case 4: return T->r.below(100000);
	default: return T->r.range(1, 10) * 10;
	}
}
static kev_result t1_fire(KOPAQUE data, void* arg, int got) {
	int id = (int)(intptr_t)arg;
	auto it = T->by_id.find(id);
	if (it == T->by_id.end()) { mon::violation("timer:twice", "a timer fired twice or was never added (id %d)", id); return kev_ok; }
	int64_t dl = it->second->first;
	if (!T->in_turn) mon::violation("timer:turn", "a timer fired outside a loop turn");
	if (dl > T->turn_now) mon::violation("timer:early", "fired at %lld, due at %lld", (long long)T->turn_now, (long long)dl);
	if ((uintptr_t)data != T->data[id] || got != 0) mon::violation("timer:data", "timer data changed");
	if (!T->added_this_turn.count(id)) {
		if (dl < T->last_deadline) mon::violation("timer:order", "due at %lld fired after one due at %lld", (long long)dl, (long long)T->last_deadline);
		T->last_deadline = dl;
	}
	T->pending.erase(it->second);
	T->by_id.erase(it);
	T->data.erase(id);
	T->fired++;
	T->trace = mon::hash(T->trace, id);
	if (T->r.chance(1, 4)) t1_add(t1_delay());
	if (T->r.chance(1, 12)) { int n = T->r.range(1, 5), d = t1_delay(); for (int i = 0; i < n; i++) t1_add(d); }
	return kev_ok;
}
static void t1_close_tick(T1::Tick* k) {
	k->open = false;
	if (!kselector_close_tick(k->t)) mon::violation("tick:close", "closing a tick failed");
}
static int t1_tick(void* arg, int ev) {
	T1::Tick* k = (T1::Tick*)arg;
	if (!k->open) { mon::violation("tick:after-close", "a closed tick was called"); return 0; }
	k->calls++;
	int c = T->r.below(40);
	if (c == 0) { t1_close_tick(k); return T->r.below(3); }
	if (c == 1) {
		T1::Tick* o = T->ticks[T->r.below((uint32_t)T->ticks.size())];
		if (o != k && o->open) { t1_close_tick(o); mon::count("tick.closed_by_other"); }
	}
	k->ret = T->r.chance(1, 2) ? T->r.range(1, 200) : 0;
	if (k->ret > 0 && (T->min_ret == 0 || k->ret < T->min_ret)) T->min_ret = k->ret;
	return k->ret;
}
static int t1_tmo(int ep, int tmo) { T->tmo_seen = tmo; return 0; }
static void timer_case(int ci) {
	T1 t;
	t.r = rng_for(47, ci);
	T = &t;
	Rng& r = t.r;
	mon::set_case("timer seed=%llu case=%d", (unsigned long long)mon::seed, ci);
	static int64_t clock = 1700000000000ll;
	clock += r.below(5000);
	wrap::vclock_set(clock);
	kselector_step(0);   // the loop learns the time
	t.now = kgl_current_msec;
	if (t.now != clock) mon::violation("timer:clock", "the loop did not take the time");
	int steps = r.range(10, 60);
	int jumps = 0, ticks_reg = 0;
	bool use_ticks = r.chance(1, 2);
	for (int s = 0; s < steps; s++) {
		int n = r.chance(1, 10) ? r.range(20, 80) : r.below(6);
		for (int i = 0; i < n; i++) t1_add(t1_delay());
		if (use_ticks && r.chance(1, 4) && t.ticks.size() < 12) {
			T1::Tick* k = new T1::Tick{ NULL, (int)t.ticks.size(), 0, 0, true, -1 };
			k->t = kselector_new_tick(t1_tick, k);
			t.ticks.push_back(k);
			if (!kselector_register_tick(k->t)) mon::violation("tick:register", "registering a tick failed");
			ticks_reg++;
		}
		if (use_ticks && r.chance(1, 10)) for (auto k : t.ticks) if (k->open && r.chance(1, 3)) { t1_close_tick(k); break; }
		// the clock moves; now and then it is set back
		int64_t before = clock;
		if (r.chance(1, 12)) { clock -= 1000 + r.below(r.chance(1, 2) ? 3000 : 100000000); jumps++; }
		else if (r.chance(1, 3) && !t.pending.empty()) clock = std::max(clock, t.pending.begin()->first - (int)r.below(2));
		else clock += r.below(4) == 0 ? r.below(3000) : r.below(30);
		wrap::vclock_set(clock);
		// one turn: due timers (by the time known before the turn), ticks, then the clock is read
		t.in_turn = true;
		t.turn_now = t.now;
		t.last_deadline = 0;
		t.added_this_turn.clear();
		t.min_ret = 0;
		std::vector<int> before_calls;
		for (auto k : t.ticks) before_calls.push_back(k->calls);
		std::vector<bool> open_before;
		for (auto k : t.ticks) open_before.push_back(k->open);
		kselector_step(0);
		t.in_turn = false;
		for (auto& kv : t.pending)
			if (kv.first <= t.turn_now && !t.added_this_turn.count(kv.second)) { mon::violation("timer:late", "due at %lld, still pending after the turn at %lld", (long long)kv.first, (long long)t.turn_now); break; }
		for (size_t i = 0; i < open_before.size(); i++) {
			int c = t.ticks[i]->calls - before_calls[i];
			if (!open_before[i] && c) mon::violation("tick:after-close", "a closed tick was called");
			if (open_before[i] && t.ticks[i]->open && c != 1) mon::violation("tick:turn", "an open tick was called %d times in a turn", c);
		}
		if (t.min_ret > 0 && (t.tmo_seen > t.min_ret || t.tmo_seen < 0)) mon::violation("tick:sleep", "the loop would sleep %d ms although a tick asked for %d", t.tmo_seen, t.min_ret);
		if (kgl_current_msec != clock) mon::violation("timer:clock", "the loop did not take the time");
		int64_t diff = clock - before;
		if (diff < 0) {
			// remaining times stay what they were
			std::multimap<int64_t, int> np;
			for (auto& kv : t.pending) { auto it = np.insert(std::make_pair(kv.first + diff, kv.second)); t.by_id[kv.second] = it; }
			t.pending.swap(np);
			for (auto it = t.pending.begin(); it != t.pending.end(); ++it) t.by_id[it->second] = it;
		}
		t.now = clock;
		mon::progress();
	}
	// drain
	for (int k = 0; !t.pending.empty() && k < 20000; k++) {
		clock = std::max(clock, t.pending.begin()->first);
		wrap::vclock_set(clock);
		for (int turn = 0; turn < 2; turn++) {   // the loop takes the time at the end of a turn
			t.in_turn = true; t.turn_now = t.now; t.last_deadline = 0; t.added_this_turn.clear();
			kselector_step(0);
			t.in_turn = false;
			t.now = clock;
		}
		if (k > 300) t.r = Rng(7 + k);
		mon::progress();
		if (k > 15000) { mon::violation("timer:lost", "%zu timers never fired", t.pending.size()); break; }
	}
	for (auto k : t.ticks) { if (k->open) t1_close_tick(k); delete k; }
	kselector_step(0);
	mon::eval();
	mon::cover(t.trace);
	mon::count("timer.fired", t.fired);
	mon::count("timer.shared_deadlines", t.shared);
	mon::count("timer.added_in_callbacks", t.from_cb);
	mon::count("timer.clock_set_back", jumps);
	mon::count("tick.registered", ticks_reg);
	if (ci < 3) mon::sample("%d timers fired, %d with shared deadlines, %d added inside callbacks, clock set back %d times, %d ticks", t.fired, t.shared, t.from_cb, jumps, ticks_reg);
	T = NULL;
}
// timers over real loops: from fibers, other threads and the manager
struct TR { int64_t due; int loop; volatile int fired = 0; volatile int* done; uintptr_t data; };
static kev_result tr_fire(KOPAQUE data, void* arg, int got) {
	TR* t = (TR*)arg;
	if (mon_fetch_add32(&t->fired, 1)) mon::violation("timer:twice", "timer fired twice");
	// the library's clock is a cached value advanced by one loop: judge by that clock
	if (kgl_current_msec < t->due) mon::violation("timer:early", "fired %lld ms early", (long long)(t->due - kgl_current_msec));
	int l = my_loop();
	if (t->loop >= 0 && l != t->loop) mon::violation("timer:loop", "timer of loop %d fired on %d", t->loop, l);
	if (l < 0) mon::violation("timer:loop", "timer fired off the loops");
	if ((uintptr_t)data != t->data) mon::violation("timer:data", "timer data changed");
	mon::progress();
	signal_done(t->done);
	return kev_ok;
}
static void timermt_case(int ci) {
	Rng r = rng_for(48, ci);
	mon::set_case("timermt seed=%llu case=%d", (unsigned long long)mon::seed, ci);
	volatile int done = 0, fdone = 0;
	std::vector<TR*> all;
	int n = r.range(1, 60), nf = r.range(0, 10);
	for (int f = 0; f < nf; f++) {
		uint64_t fs = r.next();
		spawn(get_selector_by_index(r.below(nloops)), [fs](int) {
			Rng q(fs);
			for (int i = q.range(1, 5); i > 0; i--) {
				int ms = q.below(40);
				if (q.chance(1, 4)) ms = q.range(100, 200);
				int64_t t0 = kgl_current_msec;
				kfiber_msleep(ms);
				if (kgl_current_msec - t0 < ms) mon::violation("timer:sleep-early", "a sleep of %d ms took %d", ms, (int)(kgl_current_msec - t0));
				mon::count("timer.sleeps");
				mon::progress();
			}
			return 0;
		}, &fdone);
	}
	for (int i = 0; i < n; i++) {
		TR* t = new TR();
		int ms = r.chance(1, 6) ? r.range(100, 250) : r.below(60);
		t->loop = r.chance(2, 3) ? (int)r.below(nloops) : -1;
		t->data = (uintptr_t)r.next();
		t->done = &done;
		t->due = kgl_current_msec + ms;
		all.push_back(t);
		if (t->loop >= 0) kselector_add_timer_ts(get_selector_by_index(t->loop), tr_fire, t, ms, (KOPAQUE)t->data);
		else selector_manager_add_timer(tr_fire, t, ms, (KOPAQUE)t->data);
		if (r.chance(1, 5)) mon::real_usleep(r.below(500));
	}
	wait_done(&done, n);
	wait_done(&fdone, nf);
	mon::real_usleep(300);
	for (auto t : all) { if (t->fired != 1) mon::violation("timer:count", "fired %d times", t->fired); delete t; }
	mon::eval();
	mon::cover(mon::hash(r.next(), n));
	mon::count("timer.cross_thread", n);
}
// many loops on a virtual clock that moves only between quiet points: exact, also when set back
struct QT { int64_t due; int loop; volatile int fired = 0; bool sleeper; int ms; };
static void quiesce() {
	for (int rep = 0; rep < 4; rep++) {
		volatile int d = 0;
		for (int i = 0; i < nloops; i++) post(get_selector_by_index(i), [&d] { mon_fetch_add32(&d, 1); });
		wait_done(&d, nloops);
	}
}
static kev_result q_fire(KOPAQUE data, void* arg, int got) {
	QT* t = (QT*)arg;
	if (t->loop >= 0 && my_loop() != t->loop) mon::violation("timer:loop", "timer of loop %d fired on %d", t->loop, my_loop());
	mon_fetch_add32(&t->fired, 1);
	mon::progress();
	return kev_ok;
}
static void timerq_case(int ci) {
	Rng r = rng_for(52, ci);
	mon::set_case("timerq seed=%llu case=%d loops=%d", (unsigned long long)mon::seed, ci, nloops);
	std::vector<QT*> all;
	int64_t now = wrap::vclock_now();
	int steps = r.range(4, 16), backs = 0;
	uint64_t trace = 0;
	for (int s = 0; s < steps || !all.empty(); s++) {
		if (s < steps) for (int n = r.below(12); n > 0; n--) {
			QT* t = new QT();
			t->ms = r.chance(1, 3) ? r.below(5000) : r.chance(1, 2) ? r.below(40) : r.range(1, 4) * 100;
			t->due = now + t->ms;
			t->loop = r.chance(3, 4) ? (int)r.below(nloops) : -1;
			t->sleeper = r.chance(1, 4) && t->loop >= 0;
			all.push_back(t);
			if (t->sleeper) spawn(get_selector_by_index(t->loop), [t](int) {
				kfiber_msleep(t->ms);
				if (my_loop() != t->loop) mon::violation("timer:loop", "sleeper changed loops");
				mon_fetch_add32(&t->fired, 1);
				return 0;
			});
			else if (t->loop >= 0) kselector_add_timer_ts(get_selector_by_index(t->loop), q_fire, t, t->ms, NULL);
			else selector_manager_add_timer(q_fire, t, t->ms, NULL);
		}
		quiesce();
		int64_t step;
		if (s < steps && r.chance(1, 4)) { step = -(int64_t)(1000 + r.below(r.chance(1, 2) ? 3000 : 1000000)); backs++; }
		else if (r.chance(1, 2) && !all.empty()) { step = all[r.below((uint32_t)all.size())]->due - now - (int)r.below(2); if (step < 0) step = 0; }
		else step = r.below(400);
		if (s > steps + 200) step = 100000;
		wrap::vclock_advance(step);
		now += step;
		quiesce();
		std::vector<QT*> left;
		for (QT* t : all) {
			if (step < 0) t->due += step;
			int f = mon_load32(&t->fired);
			if (t->due <= now) {
				if (f != 1) mon::violation(f ? "timer:twice" : "timer:late", "%s of %d ms, due %lld ms ago, fired %d times (last clock step %lld)", t->sleeper ? "sleeper" : "timer", t->ms, (long long)(now - t->due), f, (long long)step);
				trace = mon::hash(trace, t->due - now);
				mon::count(t->sleeper ? "timer.exact_sleeps" : "timer.exact_cross_thread");
				if (f) delete t;
			} else {
				if (f) mon::violation("timer:early", "%s of %d ms fired %lld ms early (last clock step %lld)", t->sleeper ? "sleeper" : "timer", t->ms, (long long)(t->due - now), (long long)step);
				left.push_back(t);
			}
			if (mon::violated()) mon::finish();
		}
		all.swap(left);
	}
	mon::count("timer.set_back_many_loops", backs);
	mon::eval();
	mon::cover(trace);
}
// the private loop of kasync_main survives the clock being set back
struct MainArg { int64_t back; int naps; volatile int woke; };
static int main_fiber(void* a, int) {
	MainArg* m = (MainArg*)a;
	for (int i = 0; i < m->naps; i++) {
		int64_t v = wrap::vclock_now();
		kfiber_msleep(20);
		m->woke++;
		(void)v;
		mon::progress();
	}
	return 5;
}
static MainArg* MA;
static int main_turns, main_after, main_limit_hit;
static int main_tmo(int ep, int tmo) {
	if (++main_turns == 3) wrap::vclock_advance(-MA->back);
	else wrap::vclock_advance(5);
	// far more turns than the naps need: the sleeper is stalled
	if (main_turns > 40 + MA->naps * 20) {
		mon::violation("timer:stalled", "a sleeper of 20 ms is still asleep after %d ms of loop turns since the clock was set back", main_turns * 5);
		mon::finish();
	}
	return 0;
}
static void mainclock_case(int ci) {
	Rng r = rng_for(49, ci);
	MainArg m{ (int64_t)1000 + r.below(10000000), r.range(1, 8), 0 };
	MA = &m;
	main_turns = 0;
	mon::set_case("mainclock seed=%llu case=%d back=%lld", (unsigned long long)mon::seed, ci, (long long)m.back);
	wrap::hooks.epoll_tmo = main_tmo;
	int rc = kasync_main(main_fiber, &m, 0);
	if (rc != 5) mon::violation("main:result", "kasync_main returned %d", rc);
	if (m.woke != m.naps) mon::violation("timer:stalled", "woke %d of %d times", m.woke, m.naps);
	mon::eval();
	mon::cover(mon::hash(m.back, m.naps));
	mon::count("timer.main_loop_set_back");
}
// ===================================================================== thread events (kcond)
struct KC { kcond* c; volatile int notices = 0, released = 0, sets = 0; volatile int go = 0; bool ar; volatile int done = 0; int64_t payload = 0; };
static volatile int spurious_den, spurious_n;
static volatile int kc_entered;
static __thread bool kc_count_entry;
static bool spurious() {
	if (kc_count_entry) { kc_count_entry = false; mon_fetch_add32(&kc_entered, 1); }
	if (!spurious_den) return false;
	static __thread uint64_t x;
	x = mon::hash(x ^ (uint64_t)pthread_self(), mon::seed + 3);
	if (x % spurious_den) return false;
	mon_fetch_add32(&spurious_n, 1);
	return true;
}
struct KW { KC* k; int n; uint64_t seed; int got = 0; };
static void* kc_waiter(void* a) {
	KW* w = (KW*)a;
	KC* k = w->k;
	Rng q(w->seed);
	for (int i = 0; i < w->n; i++) {
		if (q.chance(1, 4)) {
			while (!kcond_try_wait(k->c, 0)) mon::real_usleep(50);
			mon::count("kcond.try_ok");
		} else kcond_wait(k->c);
		int rel = mon_fetch_add32(&k->released, 1) + 1, n = mon_load32(&k->notices);
		if (n < 1 || (k->ar && rel > n)) mon::violation("kcond:invented", "%d waits released after %d notifications", rel, n);
		if (probe_read(&k->payload) != 4711) mon::violation("kcond:visibility", "a released waiter does not see the notifier's writes");
		mon::progress();
	}
	signal_done(&k->done);
	return NULL;
}
struct KB { kcond* c; volatile int* released; volatile int* done; };
static void* kc_burst_waiter(void* a) {
	KB* b = (KB*)a;
	kc_count_entry = true;
	kcond_wait(b->c);
	kc_count_entry = false;
	mon_fetch_add32(b->released, 1);
	signal_done(b->done);
	return NULL;
}
// a number of threads wait (each has got as far as blocking with the event's lock held, so that a notification finds it);
// then several notifications at once, or a set followed by a reset
static void kcond_burst(int ci) {
	Rng r = rng_for(51, ci);
	bool ar = r.chance(2, 3);
	int nt = r.range(1, 6), n = r.range(1, nt + 2);
	kcond* c = kcond_init(ar);
	volatile int released = 0, done = 0;
	KB b = { c, &released, &done };
	kc_entered = 0;
	spurious_den = r.chance(1, 2) ? r.range(2, 4) : 0;
	mon::set_case("kcond-burst seed=%llu case=%d auto=%d threads=%d notices=%d spurious=%d", (unsigned long long)mon::seed, ci, ar, nt, n, spurious_den);
	std::vector<pthread_t> t(nt);
	for (auto& x : t) pthread_create(&x, NULL, kc_burst_waiter, &b);
	int64_t t0 = mon::real_usec();
	while (mon_load32(&kc_entered) < nt && mon::real_usec() - t0 < 3000000) mon::real_usleep(20);
	if (mon_load32(&kc_entered) < nt) mon::count("kcond.burst_unsure");
	else if (ar) {
		for (int i = 0; i < n; i++) kcond_notice(c);
		int want = n < nt ? n : nt;
		wait_done(&done, want);
		mon::real_usleep(r.below(300));
		if (mon_load32(&released) != want) mon::violation("kcond:burst", "%d notifications released %d of %d waiting threads", n, mon_load32(&released), nt);
		bool set = kcond_try_wait(c, 0);
		if (set != (n > nt)) mon::violation("kcond:burst-state", "%d notifications for %d waiting threads left the event %s", n, nt, set ? "set" : "unset");
		if (set && kcond_try_wait(c, 0)) mon::violation("kcond:dup", "one event released two waits");
		mon::count("kcond.bursts");
	} else {
		for (int i = 0; i < n; i++) kcond_notice(c);
		kcond_reset(c);
		wait_done(&done, nt);
		if (kcond_try_wait(c, 0)) mon::violation("kcond:reset", "still set after a reset");
		mon::count("kcond.pulses");
	}
	for (int i = 0; mon_load32(&done) < nt; i++) { kcond_notice(c); mon::real_usleep(20); }
	for (auto x : t) pthread_join(x, NULL);
	kcond_destroy(c);
	mon::eval();
	mon::cover(mon::hash(mon::hash(ar + 2, n), mon::hash(nt, spurious_n)));
	mon::count("kcond.spurious_wakeups", spurious_n);
	spurious_n = 0;
	spurious_den = 0;
}
static void kcond_case(int ci) {
	Rng r = rng_for(50, ci);
	KC k;
	k.ar = r.chance(1, 2);
	k.c = kcond_init(k.ar);
	spurious_den = r.chance(2, 3) ? 2 : 0;
	int nt = r.range(1, 6);
	mon::set_case("kcond seed=%llu case=%d auto=%d threads=%d spurious=%d", (unsigned long long)mon::seed, ci, k.ar, nt, spurious_den);
	probe_write(&k.payload, 4711);
	std::vector<KW> ws(nt);
	std::vector<pthread_t> t(nt);
	int total = 0;
	for (int i = 0; i < nt; i++) { ws[i].k = &k; ws[i].n = r.range(1, 6); ws[i].seed = r.next(); total += ws[i].n; }
	bool preset = r.chance(1, 3);
	if (preset) { mon_fetch_add32(&k.notices, 1); kcond_notice(k.c); }
	for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, kc_waiter, &ws[i]);
	if (k.ar) {
		// an auto-reset event holds one set: notify again when the last one was consumed
		for (int n = preset ? 1 : 0; n < total; n++) {
			while (mon_load32(&k.released) < n) mon::real_usleep(30);
			if (r.chance(1, 4)) mon::real_usleep(r.below(300));
			mon_fetch_add32(&k.notices, 1);
			kcond_notice(k.c);
		}
	} else if (!preset) {
		mon::real_usleep(r.below(2000));
		if (k.released) mon::violation("kcond:invented", "released without a notification");
		mon_fetch_add32(&k.notices, 1);
		kcond_notice(k.c);
	}
	wait_done(&k.done, nt);
	for (auto x : t) pthread_join(x, NULL);
	if (k.released != total) mon::violation("kcond:count", "%d of %d", k.released, total);
	bool set = kcond_try_wait(k.c, 0);
	if (set != !k.ar) mon::violation("kcond:state", "%s event is %s after its waits", k.ar ? "auto-reset" : "manual", set ? "set" : "unset");
	if (!k.ar) {
		kcond_reset(k.c);
		if (kcond_try_wait(k.c, 0)) mon::violation("kcond:reset", "still set after a reset");
		kcond_notice(k.c); kcond_wait(k.c); kcond_wait(k.c);
	} else {
		kcond_notice(k.c); kcond_notice(k.c);   // a second set of a set event is absorbed
		if (!kcond_try_wait(k.c, 0)) mon::violation("kcond:lost", "a set was lost");
		if (kcond_try_wait(k.c, 0)) mon::violation("kcond:dup", "one event released two waits");
		kcond_notice(k.c); kcond_reset(k.c);
		if (kcond_try_wait(k.c, 0)) mon::violation("kcond:reset", "still set after a reset");
	}
	kcond_destroy(k.c);
	mon::eval();
	mon::cover(mon::hash(mon::hash(k.ar, total), mon::hash(nt, spurious_n)));
	mon::count("kcond.waits", total);
	mon::count("kcond.spurious_wakeups", spurious_n);
	spurious_n = 0;
	spurious_den = 0;
	if (ci < 3) mon::sample("%s event, %d threads, %d waits", k.ar ? "auto-reset" : "manual", nt, total);
}
// ===================================================================== spin read/write locks
struct SL {
	bool wr;               // the writer-preferring kind
	krw_mutex m; kwr_mutex w;
	volatile int readers = 0, writers = 0, maxr = 0; int64_t a = 0, b = 0; volatile int done = 0; volatile int go = 0;
	void rlock(bool high) { if (wr) kwr_mutex_rlock(&w, high); else krw_mutex_rlock(&m); }
	void runlock() { if (wr) kwr_mutex_runlock(&w); else krw_mutex_runlock(&m); }
	void wlock() { if (wr) kwr_mutex_wlock(&w); else krw_mutex_wlock(&m); }
	void wunlock() { if (wr) kwr_mutex_wunlock(&w); else krw_mutex_wunlock(&m); }
};
struct ST { SL* s; int n; uint64_t seed; int wr = 0; };
static void sl_read(SL* s, Rng& q) {
	int rd = mon_fetch_add32(&s->readers, 1) + 1;
	if (mon_load32(&s->writers)) mon::violation("spin:reader-with-writer", "a reader shares the lock with a writer");
	if (rd > s->maxr) mon_store32(&s->maxr, rd);
	int64_t x = probe_read(&s->a);
	spin(q.below(200));
	if (probe_read(&s->b) != x || probe_read(&s->a) != x) mon::violation("spin:torn", "inconsistent data under a read lock");
	mon_fetch_add32(&s->readers, -1);
}
static void sl_write(SL* s, Rng& q, int* wr) {
	if (mon_fetch_add32(&s->writers, 1) != 0 || mon_load32(&s->readers)) mon::violation("spin:writer-not-alone", "a writer shares the lock");
	int64_t x = probe_read(&s->a);
	probe_write(&s->a, x + 1);
	spin(q.below(200));
	probe_write(&s->b, x + 1);
	(*wr)++;
	mon_fetch_add32(&s->writers, -1);
}
static void* spin_thread(void* a) {
	ST* t = (ST*)a;
	SL* s = t->s;
	Rng q(t->seed);
	while (!mon_load32(&s->go)) mon::real_usleep(10);
	for (int i = 0; i < t->n; i++) {
		if (q.chance(2, 3)) { s->rlock(q.chance(1, 2)); sl_read(s, q); s->runlock(); }
		else { s->wlock(); sl_write(s, q, &t->wr); s->wunlock(); }
		if (q.chance(1, 16)) mon::real_usleep(1);
		if (q.chance(1, 64)) mon::progress();
	}
	mon::progress();
	signal_done(&s->done);
	return NULL;
}
// a helper thread that takes the lock, says so, and releases it when told
struct Hold { SL* s; int kind; volatile int in = 0, go = 0; pthread_t t; };   // kind: 0 read, 1 high read, 2 write
static void* hold_thread(void* a) {
	Hold* h = (Hold*)a;
	if (h->kind == 2) h->s->wlock(); else h->s->rlock(h->kind == 1);
	mon_store32(&h->in, 1);
	while (!mon_load32(&h->go)) mon::real_usleep(10);
	if (h->kind == 2) h->s->wunlock(); else h->s->runlock();
	return NULL;
}
static void hold_start(Hold* h, SL* s, int kind) { h->s = s; h->kind = kind; pthread_create(&h->t, NULL, hold_thread, h); }
static void hold_end(Hold* h) { mon::wait_ge(&h->in, 1); mon_store32(&h->go, 1); pthread_join(h->t, NULL); mon::progress(); }
static bool gets_in(Hold* h, int ms) { for (int i = 0; i < ms * 10; i++) { if (mon_load32(&h->in)) return true; mon::real_usleep(100); } return false; }
static void spin_case(int ci) {
	Rng r = rng_for(51, ci);
	SL s;
	s.wr = ci % 2;
	krw_mutex_init(&s.m);
	kwr_mutex_init(&s.w);
	int nt = r.range(2, 8);
	mon::set_case("spin seed=%llu case=%d threads=%d kind=%d", (unsigned long long)mon::seed, ci, nt, s.wr);
	std::vector<ST> st(nt);
	std::vector<pthread_t> t(nt);
	int total = 0;
	for (int i = 0; i < nt; i++) { st[i].s = &s; st[i].n = r.range(20, 200); st[i].seed = r.next(); total += st[i].n; pthread_create(&t[i], NULL, spin_thread, &st[i]); }
	mon_store32(&s.go, 1);
	wait_done(&s.done, nt);
	int wr = 0;
	for (int i = 0; i < nt; i++) { pthread_join(t[i], NULL); wr += st[i].wr; }
	if (s.a != wr || s.b != wr) mon::violation("spin:lost-update", "%d writes left %lld", wr, (long long)s.a);
	// scripted: who gets in while somebody else holds it
	if (ci % 6 < 2) {
		Hold h[4];
		hold_start(&h[0], &s, 2);
		mon::wait_ge(&h[0].in, 1);
		hold_start(&h[1], &s, r.below(2));
		hold_start(&h[2], &s, 2);
		if (gets_in(&h[1], 1)) mon::violation("spin:reader-with-writer", "a reader was admitted beside a writer");
		if (gets_in(&h[2], 1)) mon::violation("spin:writer-not-alone", "a writer was admitted beside a writer");
		mon_store32(&h[1].go, 1);
		mon_store32(&h[2].go, 1);
		hold_end(&h[0]); hold_end(&h[1]); hold_end(&h[2]);
		Hold g[4];
		hold_start(&g[0], &s, 0);
		mon::wait_ge(&g[0].in, 1);
		hold_start(&g[1], &s, 1);
		mon::wait_ge(&g[1].in, 1);            // readers share: this hangs when they do not
		hold_start(&g[2], &s, 2);
		if (gets_in(&g[2], 1)) mon::violation("spin:writer-not-alone", "a writer was admitted beside readers");
		hold_end(&g[0]);
		if (gets_in(&g[2], 1)) mon::violation("spin:writer-not-alone", "a writer was admitted beside a reader");
		if (s.wr) {
			while (s.w.try_write == 0) mon::real_usleep(50);
			hold_start(&g[3], &s, 0);
			Hold x;
			hold_start(&x, &s, 1);
			mon::wait_ge(&x.in, 1);           // an urgent reader does not queue behind the waiting writer
			if (gets_in(&g[3], 1)) mon::violation("spin:priority", "an ordinary reader overtook a waiting writer");
			hold_end(&x);
			hold_end(&g[1]);
			mon::wait_ge(&g[2].in, 1);
			if (g[3].in) mon::violation("spin:priority", "an ordinary reader overtook a waiting writer");
			hold_end(&g[2]);
			hold_end(&g[3]);
			mon::count("spin.priority_scripts");
		} else {
			hold_end(&g[1]);
			hold_end(&g[2]);
		}
		s.wlock(); s.wunlock();
		s.rlock(false); s.rlock(false); s.runlock(); s.runlock();
		s.wlock(); s.wunlock();
	}
	mon::eval();
	mon::cover(mon::hash(mon::hash(wr, s.wr), s.maxr));
	mon::count("spin.operations", total);
	if (s.maxr > 1) mon::count("spin.shared_reads");
	if (ci < 3) mon::sample("%d threads, %d operations, %d writes, %d readers together", nt, total, wr, s.maxr);
}

int main(int argc, char** argv) {
	mon::init(argc, argv, "loop");
	nloops = mon::iarg("loops", 4);
	std::string mode = mon::arg("mode", "post");
	mon::watchdog(mon::iarg("watchdog", 20));
	wrap::hooks.pthread_create_fault = create_fault;
	bool step = mode == "timer", none = mode == "kcond" || mode == "spin" || mode == "mainclock";
	if (mode == "post" || mode == "fair") wrap::hooks.epoll_tmo = infinite_tmo;   // only the post itself can wake a loop
	if (step) {
		wrap::hooks.epoll_tmo = t1_tmo;
		wrap::vclock_enable(1700000000000ll);
		kasync_init();
		selector_manager_init(1, false);
		T1 dummy;
		T = &dummy;
		kselector_step_init(0);
		kselector_step(0);
		T = NULL;
	} else if (!none) {
		if (mode == "timerq") wrap::vclock_enable(1700000000000ll);
		loops_start(nloops);
		nloops = n_loops;
	} else if (mode == "mainclock") {
		wrap::vclock_enable(1700000000000ll);
		kasync_init();
	} else if (mode == "kcond") wrap::hooks.cond_wait_spurious = spurious;
	if (mon::iarg("jitter", 0)) jitter_on(mon::iarg("jitter", 0));
	int64_t b0 = 0;
	int base = kfiber_get_count();
	for (int i = 0; i < mon::cases; i++) {
		if (mode == "post") post_case(i);
		else if (mode == "fair") fair_case(i);
		else if (mode == "worker1") worker1_case(i);
		else if (mode == "workern") workern_case(i, false);
		else if (mode == "workerf") workern_case(i, true);
		else if (mode == "pool") pool_case(i);
		else if (mode == "tcall") tcall_case(i);
		else if (mode == "timer") timer_case(i);
		else if (mode == "timermt") timermt_case(i);
		else if (mode == "timerq") timerq_case(i);
		else if (mode == "mainclock") mainclock_case(i);
		else if (mode == "kcond") { kcond_case(i); kcond_burst(i); }
		else if (mode == "spin") spin_case(i);
		else mon::harness_error("mode %s", mode.c_str());
		if (i == 2) { mon::real_usleep(30000); b0 = wrap::alloc_stat().blocks; }
		mon::progress();
	}
	while (kfiber_get_count() != base) mon::real_usleep(200);
	int64_t b1 = 0;
	for (int k = 0; k < 200; k++) { b1 = wrap::alloc_stat().blocks; if (b1 <= b0) break; mon::real_usleep(10000); }
	// idle pool threads own one block each
	int w = 0, f = 0;
	if (!none && !step) kthread_get_count(&w, &f);
	if (mon::cases > 20 && b1 - b0 > mon::cases / 10 + 8 + w + f) mon::violation("leak", "live blocks grew from %lld to %lld over %d cases", (long long)b0, (long long)b1, mon::cases);
	mon::finish();
}
