// C02 (fiber mutex), C03 (fiber rwlock), C04 (fiber condition), C05 (fiber channel)
#include "kx.h"
using namespace kx;
static int nloops;
static kselector* pick(Rng& r) { return get_selector_by_index(r.below(nloops)); }

// data guarded by the lock under test: the race detector watches these accesses
static __attribute__((noinline)) int64_t probe_read(int64_t* p) { return *p; }
static __attribute__((noinline)) void probe_write(int64_t* p, int64_t v) { *p = v; }
// ===================================================================== mutex, many loops
struct MState {
	kfiber_mutex* m;
	volatile int holders = 0, maxlimit = 1, maxseen = 0;
	volatile int granted = 0, refused = 0, requests = 0;
	int64_t guarded = 0, expect = 0;  // plain: protected by the mutex when the limit is 1
	volatile int order_sig = 0;
	bool exclusive = true;
};
static void m_enter(MState& s) {
	int h = mon_fetch_add32(&s.holders, 1) + 1;
	if (h > mon_load32(&s.maxlimit)) mon::violation("mutex:over-limit", "%d holders, limit %d", h, mon_load32(&s.maxlimit));
	if (h > mon_load32(&s.maxseen)) mon_store32(&s.maxseen, h);
}
static void m_leave(MState& s) { mon_fetch_add32(&s.holders, -1); }
static void mutex_case(int ci) {
	Rng r = rng_for(1, ci);
	MState s;
	int limit = r.chance(1, 2) ? 1 : r.range(2, 4);
	bool change = r.chance(1, 4);
	s.exclusive = limit == 1 && !change;
	s.maxlimit = limit;
	s.m = kfiber_mutex_init2(limit);
	int nf = r.range(2, 14);
	volatile int done = 0;
	std::string desc = "limit=" + std::to_string(limit) + " fibers=" + std::to_string(nf) + (change ? " changing-limit" : "");
	mon::set_case("mutex seed=%llu case=%d %s", (unsigned long long)mon::seed, ci, desc.c_str());
	volatile int trace = 0;
	for (int f = 0; f < nf; f++) {
		int ops = r.range(1, 8);
		uint64_t fs = r.next();
		spawn(pick(r), [&s, ops, fs, change, nf, limit, &trace](int) {
			Rng q(fs);
			for (int i = 0; i < ops; i++) {
				int pre = q.below(4);
				if (pre == 0) yield_fiber();
				if (pre == 1) spin(q.below(2000));
				int max = q.chance(1, 3) ? q.range(1, nf + 1) : 0;
				mon_fetch_add32(&s.requests, 1);
				int rc = max ? kfiber_mutex_try_lock(s.m, max) : kfiber_mutex_lock(s.m);
				if (rc != 0) {
					mon_fetch_add32(&s.refused, 1);
					if (max == 0 || max >= nf) mon::violation("mutex:refused", "lock refused rc=%d max=%d fibers=%d", rc, max, nf);
					mon::progress();
					continue;
				}
				m_enter(s);
				mon_fetch_add32(&s.granted, 1);
				int64_t v = 0;
				if (s.exclusive) { v = probe_read(&s.guarded); s.expect++; }
				int in = q.below(5);
				if (in == 0) yield_fiber();
				else if (in == 1) spin(q.below(3000));
				else if (in == 2) { yield_fiber(); yield_fiber(); }
				if (s.exclusive) {
					if (probe_read(&s.guarded) != v) mon::violation("mutex:interference", "protected value changed under the lock");
					probe_write(&s.guarded, v + 1);
				}
				if (change && q.chance(1, 3)) {
					int nl = q.range(1, 5);
					// the bound of the monitor only grows while limits change
					int cur = mon_load32(&s.maxlimit);
					if (nl > cur) mon_store32(&s.maxlimit, 5);
					kfiber_mutex_set_limit(s.m, nl);
				}
				mon_store32(&trace, (int)mon::hash(trace, (uint64_t)fs + i));
				m_leave(s);
				kfiber_mutex_unlock(s.m);
				mon::progress();
			}
			return 0;
		}, &done);
	}
	wait_done(&done, nf);
	if (kfiber_mutex_get_count(s.m) != 0 || kfiber_mutex_get_worker(s.m) != 0)
		mon::violation("mutex:residue", "after release count=%d worker=%d", kfiber_mutex_get_count(s.m), kfiber_mutex_get_worker(s.m));
	if (s.granted + s.refused != s.requests) mon::violation("mutex:grants", "granted %d refused %d of %d", s.granted, s.refused, s.requests);
	if (s.exclusive && s.guarded != s.granted) mon::violation("mutex:lost-update", "guarded=%lld granted=%d", (long long)s.guarded, s.granted);
	kfiber_mutex_destroy(s.m);
	mon::eval();
	mon::cover(mon::hash(mon::hash(trace, s.maxseen), s.refused));
	mon::count("mutex.granted", s.granted);
	mon::count("mutex.refused", s.refused);
	if (s.maxseen > 1) mon::count("mutex.shared_cases");
	if (ci < 3) mon::sample("%s: granted=%d refused=%d max-holders=%d", desc.c_str(), s.granted, s.refused, s.maxseen);
}

// ===================================================================== mutex, exact model on one loop
struct M1 {
	kfiber_mutex* m;
	int limit, holders = 0, waiting = 0, handoff = 0;
	uint64_t turn = 0;
	uint64_t trace = 0;
	int blocked_grants = 0, refused = 0, grants = 0;
};
static void m1_check(M1& s, const char* where) {
	int c = kfiber_mutex_get_count(s.m), w = kfiber_mutex_get_worker(s.m);
	if (c != s.holders + s.waiting + s.handoff) mon::violation("mutex1:count", "%s: count=%d model holders=%d waiting=%d handed=%d", where, c, s.holders, s.waiting, s.handoff);
	if (w != s.holders + s.handoff) mon::violation("mutex1:worker", "%s: worker=%d model holders=%d handed=%d", where, w, s.holders, s.handoff);
}
static void mutex1_case(int ci) {
	Rng r = rng_for(2, ci);
	M1 s;
	s.limit = r.range(1, 3);
	s.m = kfiber_mutex_init2(s.limit);
	int nf = r.range(2, 10);
	bool change = r.chance(1, 3);
	int kind = r.below(3);
	mon::set_case("mutex1 seed=%llu case=%d fibers=%d limit=%d", (unsigned long long)mon::seed, ci, nf, s.limit);
	volatile int done = 0, all = 0;
	kselector* sel = pick(r);
	uint64_t fseed = r.next();
	spawn(sel, [&](int) {
		volatile int fin = 0;
		int ncb = 0;
		for (int f = 0; f < nf; f++) {
			spawn_local([&s, f, fseed, nf, change, kind](int) {
				Rng q(mon::hash(fseed, f));
				int ops = q.range(1, 6);
				for (int i = 0; i < ops; i++) {
					s.turn++;
					if (q.chance(1, 3)) { yield_fiber(); s.turn++; }
					if (change && q.chance(1, 4)) { s.limit = q.range(1, 4); kfiber_mutex_set_limit(s.m, s.limit); if (kfiber_mutex_get_limit(s.m) != s.limit) mon::violation("mutex1:limit", "get_limit"); }
					m1_check(s, "before lock");
					int max = q.chance(1, 2) ? q.range(1, nf) : 0;
					int cnt = s.holders + s.waiting + s.handoff;
					bool refuse = max > 0 && cnt >= max;
					bool block = !refuse && s.holders + s.handoff >= s.limit;
					uint64_t t = s.turn;
					if (!refuse) { if (block) s.waiting++; }
					int rc = max ? kfiber_mutex_try_lock(s.m, max) : kfiber_mutex_lock(s.m);
					if ((rc != 0) != refuse) { mon::violation("mutex1:try", "rc=%d expected-refusal=%d max=%d in-use=%d", rc, refuse, max, cnt); }
					if (rc != 0) { s.refused++; if (t != s.turn) mon::violation("mutex1:refuse-blocked", "a refused request was suspended"); s.trace = mon::hash(s.trace, f * 3); continue; }
					if (block) {
						if (s.handoff <= 0) mon::violation("mutex1:stolen", "granted with no release (limit %d holders %d)", s.limit, s.holders);
						s.handoff--;
						s.blocked_grants++;
					} else if (t != s.turn) {
						mon::violation("mutex1:needless-wait", "lock was free but the fiber was suspended");
					}
					s.holders++;
					s.grants++;
					s.turn++;
					s.trace = mon::hash(s.trace, f * 3 + 1 + block);
					m1_check(s, "after lock");
					int hold = q.below(kind == 0 ? 2 : 4);
					for (int k = 0; k < hold; k++) { yield_fiber(); s.turn++; }
					m1_check(s, "before unlock");
					s.holders--;
					// a release hands over when somebody waits, unless the limit was lowered below the holders
					if (s.waiting > 0 && s.holders + s.handoff + 1 <= s.limit) { s.waiting--; s.handoff++; }
					kfiber_mutex_unlock(s.m);
					s.turn++;
					m1_check(s, "after unlock");
					mon::progress();
				}
				return 0;
			}, &fin);
		}
		int idle = 0;
		uint64_t last = s.turn;
		while (fin < nf) {
			yield_fiber();
			if (s.turn != last) { last = s.turn; idle = 0; }
			else if (++idle > 3000) { mon::violation("mutex1:lost-wakeup", "%d of %d fibers never finished: holders=%d waiting=%d handed=%d limit=%d", nf - fin, nf, s.holders, s.waiting, s.handoff, s.limit); mon::finish(); }
		}
		(void)ncb;
		all = 1;
		return 0;
	}, &done);
	wait_done(&done, 1);
	m1_check(s, "end");
	kfiber_mutex_destroy(s.m);
	mon::eval();
	mon::cover(s.trace);
	mon::count("mutex1.grants", s.grants);
	mon::count("mutex1.blocked_grants", s.blocked_grants);
	mon::count("mutex1.refused", s.refused);
	if (ci < 2) mon::sample("one loop, %d fibers: grants=%d after-wait=%d refused=%d", nf, s.grants, s.blocked_grants, s.refused);
}
// callback-lock: requested from loop main fibers, together with locking fibers
struct CbLock {
	MState* s;
	volatile int* done;
	kselector* sel;
	volatile int calls;
	uint64_t tag;
};
static kev_result cb_granted(KOPAQUE data, void* arg, int got) {
	CbLock* c = (CbLock*)arg;
	if (mon_fetch_add32(&c->calls, 1) != 0) mon::violation("mutex:cb-twice", "callback-lock granted twice");
	if (kgl_get_tls_selector() != c->sel) mon::violation("mutex:cb-thread", "callback ran on another loop");
	if ((uint64_t)(uintptr_t)data != c->tag) mon::violation("mutex:cb-data", "callback data changed");
	m_enter(*c->s);
	mon_fetch_add32(&c->s->granted, 1);
	int64_t v = probe_read(&c->s->guarded);
	spin(200);
	probe_write(&c->s->guarded, v + 1);
	m_leave(*c->s);
	kfiber_mutex_unlock(c->s->m);
	mon::progress();
	signal_done(c->done);
	return kev_ok;
}
static void mutexcb_case(int ci) {
	Rng r = rng_for(3, ci);
	MState s;
	s.m = kfiber_mutex_init();
	volatile int done = 0;
	int nf = r.range(1, 6), nc = r.range(1, 6);
	mon::set_case("mutexcb seed=%llu case=%d fibers=%d callbacks=%d", (unsigned long long)mon::seed, ci, nf, nc);
	std::vector<CbLock*> cbs;
	for (int i = 0; i < nf + nc; i++) {
		kselector* sel = pick(r);
		if ((i % 2 == 0 && (int)cbs.size() < nc) || i - (int)cbs.size() >= nf) {
			CbLock* c = new CbLock{ &s, &done, sel, 0, r.next() & 0xffffff };
			cbs.push_back(c);
			post(sel, [c, &s]() { kfiber_mutex_lock2(s.m, (KOPAQUE)(uintptr_t)c->tag, cb_granted, c); });
		} else {
			uint64_t fs = r.next();
			spawn(sel, [&s, fs](int) {
				Rng q(fs);
				if (kfiber_mutex_lock(s.m) != 0) mon::violation("mutex:refused", "plain lock refused");
				m_enter(s);
				int64_t v = probe_read(&s.guarded);
				if (q.chance(1, 2)) yield_fiber();
				probe_write(&s.guarded, v + 1);
				m_leave(s);
				mon_fetch_add32(&s.granted, 1);
				kfiber_mutex_unlock(s.m);
				return 0;
			}, &done);
		}
	}
	wait_done(&done, nf + nc);
	mon::wait_ge(&s.granted, nf + nc);
	for (int k = 0; k < 20000 && kfiber_mutex_get_count(s.m) != 0; k++) mon::real_usleep(100);
	if (kfiber_mutex_get_count(s.m) != 0 || kfiber_mutex_get_worker(s.m) != 0)
		mon::violation("mutex:residue", "after release count=%d worker=%d (callback locks)", kfiber_mutex_get_count(s.m), kfiber_mutex_get_worker(s.m));
	if (s.guarded != s.granted) mon::violation("mutex:lost-update", "guarded=%lld granted=%d", (long long)s.guarded, s.granted);
	for (auto c : cbs) { if (c->calls != 1) mon::violation("mutex:cb-lost", "callback-lock granted %d times", c->calls); delete c; }
	kfiber_mutex_destroy(s.m);
	mon::eval();
	mon::cover(mon::hash(nf * 16 + nc, r.next()));
	mon::count("mutex.cb_granted", nc);
}

// ===================================================================== rwlock
struct RW {
	kfiber_rwlock* l;
	volatile int readers = 0, writers = 0, maxr = 0, rgrant = 0, wgrant = 0;
	int64_t a = 0, b = 0;  // written together by writers
	volatile int trace = 0;
};
static void rw_ops(RW& s, Rng& q, int ops, int tag, int style) {
	for (int i = 0; i < ops; i++) {
		if (q.chance(1, 3)) yield_fiber();
		bool wr = q.chance(style == 0 ? 1 : 2, 4);
		if (wr) {
			kfiber_rwlock_wlock(s.l);
			int w = mon_fetch_add32(&s.writers, 1) + 1, rd = mon_load32(&s.readers);
			if (w != 1 || rd != 0) mon::violation("rwlock:writer-not-alone", "writers=%d readers=%d", w, rd);
			mon_fetch_add32(&s.wgrant, 1);
			int64_t v = probe_read(&s.a);
			probe_write(&s.a, v + 1);
			if (q.chance(1, 2)) yield_fiber(); else spin(q.below(1000));
			if (probe_read(&s.a) != v + 1 || probe_read(&s.b) != v) mon::violation("rwlock:interference", "data changed under the write lock");
			probe_write(&s.b, v + 1);
			mon_store32(&s.trace, (int)mon::hash(s.trace, tag * 2 + 1));
			mon_fetch_add32(&s.writers, -1);
			kfiber_rwlock_wunlock(s.l);
		} else {
			kfiber_rwlock_rlock(s.l);
			int rd = mon_fetch_add32(&s.readers, 1) + 1, w = mon_load32(&s.writers);
			if (w != 0) mon::violation("rwlock:reader-with-writer", "writers=%d readers=%d", w, rd);
			if (rd > s.maxr) mon_store32(&s.maxr, rd);
			mon_fetch_add32(&s.rgrant, 1);
			int64_t v = probe_read(&s.a);
			if (probe_read(&s.b) != v) mon::violation("rwlock:torn-read", "reader sees a=%lld b=%lld", (long long)v, (long long)s.b);
			int k = q.below(4);
			if (k == 0) yield_fiber(); else if (k == 1) spin(q.below(2000));
			if (probe_read(&s.a) != v) mon::violation("rwlock:torn-read", "value changed under the read lock");
			mon_store32(&s.trace, (int)mon::hash(s.trace, tag * 2));
			mon_fetch_add32(&s.readers, -1);
			kfiber_rwlock_runlock(s.l);
		}
		mon::progress();
	}
}
static void rw_case(int ci, bool single) {
	Rng r = rng_for(single ? 5 : 4, ci);
	RW s;
	s.l = kfiber_rwlock_init();
	int nf = r.range(2, 12);
	int style = r.below(2);
	volatile int done = 0;
	mon::set_case("rwlock%s seed=%llu case=%d fibers=%d", single ? "1" : "", (unsigned long long)mon::seed, ci, nf);
	kselector* one = pick(r);
	int total = 0;
	if (!single) {
		for (int f = 0; f < nf; f++) {
			uint64_t fs = r.next();
			spawn(pick(r), [&s, fs, f, style](int) { Rng q(fs); rw_ops(s, q, q.range(1, 7), f, style); return 0; }, &done);
		}
		wait_done(&done, nf);
	} else {
		uint64_t fs = r.next();
		spawn(one, [&](int) {
			volatile int fin = 0;
			for (int f = 0; f < nf; f++)
				spawn_local([&s, fs, f, style](int) { Rng q(mon::hash(fs, f)); rw_ops(s, q, q.range(1, 7), f, style); return 0; }, &fin);
			int idle = 0, last = -1;
			while (fin < nf) {
				yield_fiber();
				int now = s.rgrant + s.wgrant + fin;
				if (now != last) { last = now; idle = 0; }
				else if (++idle > 3000) { mon::violation("rwlock1:lost-wakeup", "%d of %d fibers never finished, readers=%d writers=%d", nf - fin, nf, s.readers, s.writers); mon::finish(); }
			}
			return 0;
		}, &done);
		wait_done(&done, 1);
	}
	(void)total;
	// a fully released lock grants everybody at once
	volatile int d2 = 0;
	spawn(one, [&s](int) {
		kfiber_rwlock_wlock(s.l); kfiber_rwlock_wunlock(s.l);
		kfiber_rwlock_rlock(s.l); kfiber_rwlock_rlock(s.l); kfiber_rwlock_runlock(s.l); kfiber_rwlock_runlock(s.l);
		kfiber_rwlock_wlock(s.l); kfiber_rwlock_wunlock(s.l);
		return 0;
	}, &d2);
	wait_done(&d2, 1);
	if (s.a != s.wgrant || s.b != s.wgrant) mon::violation("rwlock:lost-update", "a=%lld b=%lld writes=%d", (long long)s.a, (long long)s.b, s.wgrant);
	kfiber_rwlock_destroy(s.l);
	mon::eval();
	mon::cover(mon::hash(s.trace, s.maxr));
	mon::count("rwlock.reads", s.rgrant);
	mon::count("rwlock.writes", s.wgrant);
	if (s.maxr > 1) mon::count("rwlock.shared_read_cases");
	if (ci < 3) mon::sample("%d fibers: reads=%d writes=%d max readers together=%d", nf, s.rgrant, s.wgrant, s.maxr);
}

// ===================================================================== condition
// ids: every notification carries a unique value >= 1000; a fiber's own last wake value is 0.
struct CondS {
	kfiber_cond* c;
	bool ar, ts;
	volatile int notified = 0, returned = 0, cbs = 0;
	SpinLock lk;
	std::map<int, int> used;     // id -> times received
	std::map<int, int> sent;
	volatile int blocked = 0, immediate = 0;
	uint64_t trace = 0;
	bool single = false;
	uint64_t steps = 0;          // single loop: grows whenever another fiber ran
};
static void cond_got(CondS& s, int got, const char* how, bool had_to_wait = false) {
	SpinGuard g(s.lk);
	s.returned++;
	if (s.notified < 1) mon::violation("cond:invented", "%s returned before any notification", how);
	if (s.ar && s.returned > s.notified) mon::violation("cond:invented", "%s: %d waits returned after %d notifications", how, s.returned, s.notified);
	if (got >= 1000) {
		s.blocked++;
		if (!s.sent.count(got)) mon::violation("cond:value", "%s received a value that was never sent: %d", how, got);
		int n = ++s.used[got];
		if (s.ar && n > 1) mon::violation("cond:dup", "one notification released %d waits", n);
	} else {
		// a wait that found the condition set: with auto-reset its value is not specified, a manual-reset one gives the latest
		s.immediate++;
		if (!s.ar) mon::violation("cond:late-value", "%s received %d, not the value of a notification", how, got);
		if (had_to_wait) mon::violation("cond:value", "%s had to wait and received %d, not the value of a notification", how, got);
	}
	s.trace = mon::hash(s.trace, got);
}
static void cond_notify(CondS& s, int id) {
	{
		SpinGuard g(s.lk);
		s.sent[id] = 1;
		s.notified++;
		s.steps++;
		s.trace = mon::hash(s.trace, id + 7);
	}
	s.c->f->notice(s.c, id);
}
struct CondCb { CondS* s; kselector* sel; volatile int calls; uint64_t tag; };
static kev_result cond_cb(KOPAQUE data, void* arg, int got) {
	CondCb* c = (CondCb*)arg;
	if (mon_fetch_add32(&c->calls, 1)) mon::violation("cond:cb-twice", "callback ran twice");
	if (kgl_get_tls_selector() != c->sel) mon::violation("cond:cb-thread", "callback on another loop");
	if ((uint64_t)(uintptr_t)data != c->tag) mon::violation("cond:cb-data", "callback data changed");
	cond_got(*c->s, got, "callback-wait");
	signal_done(&c->s->cbs);
	mon::progress();
	return kev_ok;
}
static void cond_case(int ci, bool multi) {
	Rng r = rng_for(multi ? 6 : 7, ci);
	CondS s;
	s.ar = r.chance(2, 3);
	s.single = !multi;
	s.ts = multi || r.chance(1, 2);
	s.c = s.ts ? kfiber_cond_init_ts(s.ar) : kfiber_cond_init(s.ar);
	kselector* one = pick(r);
	int nw = r.range(1, 8), ncb = r.range(0, 3), nn = r.range(1, 4);
	std::vector<int> wops;
	int waits = 0;
	for (int i = 0; i < nw; i++) { int k = r.range(1, 5); wops.push_back(k); waits += k; }
	waits += ncb;
	mon::set_case("cond%s seed=%llu case=%d auto=%d ts=%d waiters=%d cb=%d", multi ? "" : "1", (unsigned long long)mon::seed, ci, s.ar, s.ts, nw, ncb);
	volatile int done = 0, ndone = 0;
	std::vector<CondCb*> cbs;
	uint64_t cs = r.next();
	auto start_waiter = [&](int i, int order) {
		kselector* sel = multi ? pick(r) : one;
		int ops = wops[i];
		uint64_t fs = mon::hash(cs, i);
		spawn(sel, [&s, ops, fs](int) {
			Rng q(fs);
			for (int k = 0; k < ops; k++) {
				yield_fiber();  // the last wake value of this fiber is 0 now
				int got = -77, rc;
				if (q.chance(1, 4)) {
					rc = s.c->f->try_wait(s.c, &got);
					if (rc == 0) { cond_got(s, got, "try_wait"); mon::count("cond.try_ok"); mon::progress(); continue; }
					mon::count("cond.try_no");
					got = -77;
				}
				uint64_t steps = s.steps;
				rc = s.c->f->wait(s.c, &got);
				if (rc != 0) mon::violation("cond:wait-rc", "wait returned %d", rc);
				cond_got(s, got, "wait", s.single && s.steps != steps);
				mon::progress();
			}
			return 0;
		}, &done);
	};
	auto start_cb = [&]() {
		kselector* sel = multi ? pick(r) : one;
		CondCb* c = new CondCb{ &s, sel, 0, r.next() & 0xfffff };
		cbs.push_back(c);
		post(sel, [c]() { c->s->c->f->wait_callback(c->s->c, (KOPAQUE)(uintptr_t)c->tag, cond_cb, c); });
	};
	// notifications: exactly as many as waits (auto-reset), split over notifiers; a manual one may be notified a few times
	int need = s.ar ? waits : r.range(1, 3);
	std::vector<int> per(nn, 0);
	for (int i = 0; i < need; i++) per[r.below(nn)]++;
	bool from_thread = multi && r.chance(1, 3);
	auto start_notifier = [&](int i) {
		int n = per[i];
		uint64_t fs = mon::hash(cs, 1000 + i);
		int base = 1000 + i * 1000;
		if (from_thread && i == 0) {
			for (int k = 0; k < n; k++) { spin(500); cond_notify(s, base + k); }
			signal_done(&ndone);
			return;
		}
		spawn(multi ? pick(r) : one, [&s, n, fs, base](int) {
			Rng q(fs);
			for (int k = 0; k < n; k++) {
				if (q.chance(1, 2)) yield_fiber();
				cond_notify(s, base + k);
				mon::progress();
			}
			return 0;
		}, &ndone);
	};
	std::vector<int> order;
	for (int i = 0; i < nw; i++) order.push_back(i);
	for (int i = 0; i < ncb; i++) order.push_back(100);
	for (int i = 0; i < nn; i++) order.push_back(200 + i);
	for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
	for (int o : order) {
		if (o < 100) start_waiter(o, 0);
		else if (o == 100) start_cb();
		else start_notifier(o - 200);
	}
	wait_done(&ndone, nn);
	wait_done(&done, nw);
	wait_done(&s.cbs, ncb);
	// every wait was answered; nothing is left over
	if (s.returned != waits) mon::violation("cond:conservation", "%d waits returned of %d", s.returned, waits);
	volatile int d2 = 0;
	spawn(one, [&s](int) {
		yield_fiber();
		int got = -1;
		int rc = s.c->f->try_wait(s.c, &got);
		if (s.ar && rc == 0) mon::violation("cond:left-over", "auto-reset condition still set after all notifications were consumed");
		if (!s.ar && rc != 0) mon::violation("cond:not-sticky", "manual-reset condition is not set after notifications");
		if (!s.ar) {
			// the latest value: whoever notified before may not have been the last in order, so ask after one of our own
			if (got < 1000 || !s.sent.count(got)) mon::violation("cond:late-value", "a late try_wait received %d, never sent", got);
			int again = -1, first = got;
			rc = s.c->f->wait(s.c, &again);
			if (rc) mon::violation("cond:wait-rc", "wait %d", rc);
			if (again != first) mon::violation("cond:late-value", "two late waits received %d and %d", first, again);
			cond_notify(s, 90011); cond_notify(s, 90012);
			if (s.c->f->wait(s.c, &again) != 0 || again != 90012) mon::violation("cond:late-value", "a late wait received %d, the latest value is 90012", again);
			if (s.c->f->try_wait(s.c, &again) != 0 || again != 90012) mon::violation("cond:late-value", "a late try_wait received %d, the latest value is 90012", again);
			volatile int cbgot = 0;
			struct L { static kev_result cb(KOPAQUE, void* arg, int got) { *(volatile int*)arg = got; return kev_ok; } };
			s.c->f->wait_callback(s.c, NULL, L::cb, (void*)&cbgot);
			for (int i = 0; i < 3 && cbgot == 0; i++) yield_fiber();
			if (cbgot != 90012) mon::violation("cond:late-value", "a late callback received %d, the latest value is 90012", cbgot);
			mon::count("cond.late_values", 5);
		}
		else {
			// notifications without a waiter accumulate
			cond_notify(s, 90001); cond_notify(s, 90002); cond_notify(s, 90003);
			int ok = 0;
			for (int i = 0; i < 5; i++) if (s.c->f->try_wait(s.c, NULL) == 0) ok++;
			if (ok != 3) mon::violation("cond:accumulate", "3 notifications released %d waits", ok);
		}
		return 0;
	}, &d2);
	wait_done(&d2, 1);
	for (auto c : cbs) { if (c->calls != 1) mon::violation("cond:cb-lost", "callback ran %d times", c->calls); delete c; }
	s.c->f->release(s.c);
	mon::eval();
	mon::cover(s.trace);
	mon::count("cond.waits", waits);
	mon::count("cond.notifications", s.notified);
	mon::count("cond.blocked_waits", s.blocked);
	mon::count("cond.immediate_waits", s.immediate);
	if (ci < 3) mon::sample("%s%s condition: %d waits (%d had to wait), %d notifications", s.ar ? "auto-reset" : "manual", s.ts ? " thread-safe" : "", waits, s.blocked, s.notified);
}
// thread-blocking condition: plain threads wait, fibers notify
struct SyncW { kfiber_cond* c; int n; volatile int* done; volatile int* notified; volatile int* returned; bool ar; volatile int* consumed; };
static void* sync_waiter(void* a) {
	SyncW* w = (SyncW*)a;
	for (int i = 0; i < w->n; i++) {
		int got = -77;
		if (w->c->f->wait(w->c, &got) != 0) mon::violation("cond:sync-rc", "wait failed");
		int ret = mon_fetch_add32(w->returned, 1) + 1;
		int not_ = mon_load32(w->notified);
		if (not_ < 1 || (w->ar && ret > not_)) mon::violation("cond:sync-invented", "%d waits returned after %d notifications", ret, not_);
		if (got < 1000) mon::violation("cond:sync-value", "received %d", got);
		signal_done(w->consumed);
		mon::progress();
	}
	signal_done(w->done);
	return NULL;
}
static void condsync_case(int ci) {
	Rng r = rng_for(8, ci);
	bool ar = r.chance(1, 2);
	kfiber_cond* c = kfiber_cond_init_sync(ar);
	volatile int done = 0, notified = 0, returned = 0, consumed = 0, fdone = 0;
	mon::set_case("condsync seed=%llu case=%d auto=%d", (unsigned long long)mon::seed, ci, ar);
	int nt = r.range(1, 4);
	int per = ar ? r.range(1, 4) : r.range(1, 2);
	std::vector<SyncW> ws(nt, SyncW{ c, per, &done, &notified, &returned, ar, &consumed });
	std::vector<pthread_t> ts(nt);
	bool first = r.chance(1, 2);
	auto start = [&]() { for (int i = 0; i < nt; i++) pthread_create(&ts[i], NULL, sync_waiter, &ws[i]); };
	if (first) start();
	int total = nt * per;
	spawn(pick(r), [&](int) {
		if (ar) {
			// one at a time: an unset binary event coalesces notifications by definition
			for (int i = 0; i < total; i++) {
				mon_fetch_add32(&notified, 1);
				c->f->notice(c, 1000 + i);
				while (mon_load32(&consumed) <= i) yield_fiber();
				edge_acquire(&consumed);  // the notifier waits for the consumer before it notifies again
			}
		} else {
			mon_fetch_add32(&notified, 1);
			c->f->notice(c, 1000);
		}
		return 0;
	}, &fdone);
	if (!first) start();
	wait_done(&done, nt);
	wait_done(&fdone, 1);
	for (auto t : ts) pthread_join(t, NULL);
	int got = 0;
	int rc = c->f->try_wait(c, &got);
	if (ar && rc == 0) mon::violation("cond:sync-left-over", "still set");
	if (!ar && rc != 0) mon::violation("cond:sync-not-sticky", "manual-reset condition was cleared by a wait");
	c->f->release(c);
	mon::eval();
	mon::cover(mon::hash(mon::hash(ar * 2 + first, nt), per * 16 + ci));
	mon::count("cond.sync_waits", total);
}

// ===================================================================== channel (one loop)
struct ChS {
	kfiber_chan* ch;
	bool closed = false;
	std::map<uint64_t, int> offered;  // value -> state 1 in flight, 2 received, 3 reported sent, 4 refused
	int sent_ok = 0, sent_err = 0, recv_ok = 0, recv_err = 0;
	uint64_t steps = 0, trace = 0;
	std::map<int, int> last_from;     // sender -> last sequence received
	int inflight_send = 0, inflight_recv = 0;
	std::map<uint64_t, int> reply;    // value -> outcome announced by the receiver
};
static void chan_case(int ci) {
	Rng r = rng_for(9, ci);
	mon::set_case("chan seed=%llu case=%d", (unsigned long long)mon::seed, ci);
	volatile int done = 0;
	uint64_t cs = r.next();
	int ns = r.range(1, 6), nr = r.range(1, 6);
	int close_at = r.chance(2, 3) ? r.range(1, 60) : 100000;
	bool close_end = true;
	ChS s;
	int base_live = 0;
	(void)base_live;
	spawn(pick(r), [&](int) {
		wrap::AllocStat a0 = wrap::alloc_stat();
		s.ch = kfiber_chan_create();
		volatile int fin = 0;
		int nf = 0;
		for (int f = 0; f < ns + nr; f++) {
			bool sender = (f % 2 == 0) ? (f / 2 < ns) : !(f / 2 < nr);
			uint64_t fs = mon::hash(cs, f);
			kfiber_chan_add_ref(s.ch);
			nf++;
			if (sender) spawn_local([&s, fs, f](int) {
				Rng q(fs);
				int n = q.range(1, 8);
				for (int i = 0; i < n; i++) {
					if (q.chance(1, 2)) yield_fiber();
					uint64_t v = ((uint64_t)(f + 1) << 16) | (i + 1);
					bool was_closed = s.closed;
					s.offered[v] = 1;
					s.inflight_send++;
					int rc = kfiber_chan_send(s.ch, (KOPAQUE)(uintptr_t)v);
					s.inflight_send--;
					s.steps++;
					bool received = s.offered[v] == 2 || s.reply.count(v);
					if (rc == 0) {
						s.sent_ok++;
						// the receiver may only now be scheduled; it must have been handed the value
						s.offered[v] = s.offered[v] == 2 ? 5 : 3;
						if (was_closed) mon::violation("chan:send-after-close", "send on a closed channel succeeded");
					} else if (s.reply.count(v)) {
						if (rc != s.reply[v]) mon::violation("chan:outcome", "sender told %d, receiver answered %d", rc, s.reply[v]);
						s.sent_ok++;
					} else {
						s.sent_err++;
						if (received) mon::violation("chan:outcome", "send reported failure %d but the item was received", rc);
						s.offered[v] = 4;
						if (!s.closed) mon::violation("chan:spurious-error", "send failed (%d) on an open channel", rc);
					}
					s.trace = mon::hash(s.trace, v * 4 + (rc == 0));
					mon::progress();
				}
				kfiber_chan_release(s.ch);
				return 0;
			}, &fin);
			else spawn_local([&s, fs, f](int) {
				Rng q(fs);
				int n = q.range(1, 8);
				for (int i = 0; i < n; i++) {
					if (q.chance(1, 2)) yield_fiber();
					KOPAQUE d = (KOPAQUE)(uintptr_t)0xdead;
					kfiber_waiter* w = NULL;
					bool want = q.chance(1, 3);
					bool was_closed = s.closed;
					s.inflight_recv++;
					int rc = kfiber_chan_recv(s.ch, &d, want ? &w : NULL);
					s.inflight_recv--;
					s.steps++;
					if (rc != 0) {
						s.recv_err++;
						if (!s.closed) mon::violation("chan:spurious-error", "receive failed (%d) on an open channel", rc);
						s.trace = mon::hash(s.trace, 99);
						continue;
					}
					if (was_closed) mon::violation("chan:recv-after-close", "receive on a closed channel succeeded");
					s.recv_ok++;
					uint64_t v = (uint64_t)(uintptr_t)d;
					auto it = s.offered.find(v);
					if (it == s.offered.end()) mon::violation("chan:invented", "received a value never sent");
					else if (it->second == 2 || it->second == 5) mon::violation("chan:dup", "value received twice");
					else if (it->second == 4) mon::violation("chan:outcome", "received an item whose send had failed");
					else it->second = it->second == 3 ? 5 : 2;
					int from = (int)(v >> 16), seq = (int)(v & 0xffff);
					if (s.last_from[from] >= seq) mon::violation("chan:order", "items of one sender out of order");
					s.last_from[from] = seq;
					if (w) {
						// the sender stays suspended until it is told the outcome
						int code = q.range(-5, 5);
						s.reply[v] = code;
						if (q.chance(1, 2)) yield_fiber();
						kfiber_chan_wakeup(s.ch, w, code);
						mon::count("chan.answered_sends");
					}
					s.trace = mon::hash(s.trace, v);
					mon::progress();
				}
				kfiber_chan_release(s.ch);
				return 0;
			}, &fin);
		}
		int idle = 0;
		uint64_t last = (uint64_t)-1;
		int turns = 0;
		while (fin < nf) {
			yield_fiber();
			if (++turns == close_at && !s.closed) { s.closed = true; kfiber_chan_close(s.ch); }
			if (s.steps != last) { last = s.steps; idle = 0; continue; }
			if (++idle > 30 && !s.closed) {
				// nobody can move any more: only one kind of operation may be pending
				if (s.inflight_send && s.inflight_recv) mon::violation("chan:stuck", "%d senders and %d receivers wait for each other", s.inflight_send, s.inflight_recv);
				s.closed = true;
				kfiber_chan_close(s.ch);
				if (idle % 2) kfiber_chan_close(s.ch);
			}
			if (idle > 3000) { mon::violation("chan:hang-after-close", "%d fibers still blocked after close", nf - (int)fin); mon::finish(); }
		}
		if (!s.closed) { s.closed = true; kfiber_chan_close(s.ch); }
		if (s.recv_ok != s.sent_ok) mon::violation("chan:conservation", "sent %d received %d", s.sent_ok, s.recv_ok);
		for (auto& kv : s.offered) if (kv.second == 3 || kv.second == 1) mon::violation("chan:lost", "item reported sent was never received");
		int n = 0;
		if (kfiber_chan_send(s.ch, NULL) == 0) mon::violation("chan:send-after-close", "send on a closed channel succeeded");
		KOPAQUE d;
		if (kfiber_chan_recv(s.ch, &d, NULL) == 0) mon::violation("chan:recv-after-close", "receive on a closed channel succeeded");
		if (kfiber_chan_get_ref(s.ch) != 1) mon::violation("chan:refs", "reference count %d, expected 1", kfiber_chan_get_ref(s.ch));
		kfiber_chan_release(s.ch);
		(void)n; (void)a0;
		return 0;
	}, &done);
	wait_done(&done, 1);
	(void)close_end;
	mon::eval();
	mon::cover(s.trace);
	mon::count("chan.received", s.recv_ok);
	mon::count("chan.send_errors", s.sent_err);
	mon::count("chan.recv_errors", s.recv_err);
	if (ci < 3) mon::sample("%d senders %d receivers: received=%d refused sends=%d refused receives=%d", ns, nr, s.recv_ok, s.sent_err, s.recv_err);
}

int main(int argc, char** argv) {
	mon::init(argc, argv, "sync");
	nloops = mon::iarg("loops", 4);
	std::string mode = mon::arg("mode", "mutex");
	mon::watchdog(mon::iarg("watchdog", 20));
	loops_start(nloops);
	nloops = n_loops;
	int base = kfiber_get_count();
	if (mon::iarg("jitter", 0)) jitter_on(mon::iarg("jitter", 0));
	int64_t b0 = 0;
	for (int i = 0; i < mon::cases; i++) {
		if (mode == "mutex") mutex_case(i);
		else if (mode == "mutex1") mutex1_case(i);
		else if (mode == "mutexcb") mutexcb_case(i);
		else if (mode == "rw") rw_case(i, false);
		else if (mode == "rw1") rw_case(i, true);
		else if (mode == "cond") cond_case(i, true);
		else if (mode == "cond1") cond_case(i, false);
		else if (mode == "condsync") condsync_case(i);
		else if (mode == "chan") chan_case(i);
		else mon::harness_error("mode %s", mode.c_str());
		if (i == 0) { wait_fiber_count(base); mon::real_usleep(20000); b0 = wrap::alloc_stat().blocks; }
		mon::progress();
	}
	wait_fiber_count(base);
	// memory of the primitives and of queued work is back
	int64_t b1 = 0;
	for (int k = 0; k < 200; k++) { b1 = wrap::alloc_stat().blocks; if (b1 <= b0) break; mon::real_usleep(10000); }
	if (mon::cases > 20 && b1 - b0 > mon::cases / 10 + 8) mon::violation("leak", "live blocks grew from %lld to %lld over %d cases", (long long)b0, (long long)b1, mon::cases);
	mon::count("fiber_count_restored");
	mon::finish();
}
