// Name resolution (C17): a model of the cache predicts the outcome of every lookup (mode=model,
// the driver decides when each resolution ends and how); free-running races (mode=stress).
#include "net.h"
#include "kaddr.h"
#include "kthread.h"
#include <netdb.h>
using namespace net;

// ---- the resolver stand-in -------------------------------------------------------------
// An answer owned by the library: freed exactly once, by freeaddrinfo.
struct Answer { int id; struct addrinfo* ai; volatile int freed; int family; };
static SpinLock ans_lk;
static std::map<void*, Answer*> answers;             // live, by address of the list
static volatile int live_answers = 0, next_answer = 1;
static Answer* make_answer(int family, const char* canon) {
	Answer* a = new Answer;
	a->id = mon_fetch_add32(&next_answer, 1);
	a->freed = 0;
	a->family = family;
	int n = 1 + a->id % 3;
	struct addrinfo* first = NULL, **tail = &first;
	for (int i = 0; i < n; i++) {
		bool v6 = family == AF_UNSPEC && (a->id + i) % 3 == 0;
		size_t sl = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
		struct addrinfo* ai = (struct addrinfo*)malloc(sizeof(struct addrinfo));
		memset(ai, 0, sizeof *ai);
		ai->ai_family = v6 ? AF_INET6 : AF_INET;
		ai->ai_addrlen = sl;
		ai->ai_addr = (struct sockaddr*)malloc(sl);   // exactly as long as it is
		memset(ai->ai_addr, 0, sl);
		ai->ai_addr->sa_family = ai->ai_family;
		if (v6) { memcpy(&((sockaddr_in6*)ai->ai_addr)->sin6_addr.s6_addr[0], &a->id, 4); ((sockaddr_in6*)ai->ai_addr)->sin6_addr.s6_addr[15] = (uint8_t)i; }
		else ((sockaddr_in*)ai->ai_addr)->sin_addr.s_addr = htonl((uint32_t)a->id * 4 + i);
		if (i == 0 && canon) ai->ai_canonname = strdup(canon);
		*tail = ai;
		tail = &ai->ai_next;
	}
	a->ai = first;
	SpinGuard g(ans_lk);
	answers[first] = a;
	mon_fetch_add32(&live_answers, 1);
	return a;
}
static int entries(Answer* a) { return 1 + a->id % 3; }
// what a reader of an answer sees; -1: not one of ours
static int answer_id(kgl_addr* addr, bool check_build, uint32_t port) {
	struct addrinfo* first = addr->addr;
	int id = -1;
	{ SpinGuard g(ans_lk); auto it = answers.find(first); if (it != answers.end()) id = it->second->id; }
	if (id < 0) { mon::violation("dns.freed", "a lookup was answered with an address list that is not (or no longer) one of the resolver's"); return -1; }
	int i = 0;
	for (struct addrinfo* ai = first; ai; ai = ai->ai_next, i++) {
		int seen; uint8_t k;
		if (ai->ai_family == AF_INET6) { memcpy(&seen, &((sockaddr_in6*)ai->ai_addr)->sin6_addr.s6_addr[0], 4); k = ((sockaddr_in6*)ai->ai_addr)->sin6_addr.s6_addr[15]; }
		else { uint32_t v = ntohl(((sockaddr_in*)ai->ai_addr)->sin_addr.s_addr); seen = v / 4; k = v % 4; }
		MON_CHECK(seen == id && k == i, "dns.content", "entry %d of answer %d was altered", i, id);
		if (check_build) {
			union { sockaddr_i s; sockaddr_storage room; } u;
			memset(&u, 0, sizeof u);
			kgl_addr_build(ai, (uint16_t)port, &u.s);
			MON_CHECK(ksocket_addr_port(&u.s) == port, "dns.port", "the address was built with port %u, not %u", ksocket_addr_port(&u.s), port);
			MON_CHECK(u.room.ss_family == ai->ai_family && (ai->ai_family == AF_INET ? ((sockaddr_in*)&u)->sin_addr.s_addr == ((sockaddr_in*)ai->ai_addr)->sin_addr.s_addr : !memcmp(&((sockaddr_in6*)&u)->sin6_addr, &((sockaddr_in6*)ai->ai_addr)->sin6_addr, 16)), "dns.build", "the address built differs from the answer's");
			mon::count("built");
		}
	}
	MON_CHECK(i == 1 + id % 3, "dns.content", "answer %d has %d entries", id, i);
	return id;
}
static void free_hook(void* res, bool* handled) {
	Answer* a = NULL;
	{ SpinGuard g(ans_lk); auto it = answers.find(res); if (it != answers.end()) { a = it->second; answers.erase(it); } }
	if (!a) {
		*handled = false;                            // the system resolver's (numeric)
		return;
	}
	*handled = true;
	if (mon_fetch_add32(&a->freed, 1)) mon::violation("dns.freed", "answer %d was freed twice", a->id);
	for (struct addrinfo* ai = a->ai; ai;) { struct addrinfo* n = ai->ai_next; free(ai->ai_canonname); memset(ai->ai_addr, 0xEE, ai->ai_addrlen); free(ai->ai_addr); free(ai); ai = n; }
	mon_fetch_add32(&live_answers, -1);
	mon::count("answers_freed");
	delete a;
}
static std::string lower(const std::string& s) { std::string t = s; for (auto& c : t) c = (char)tolower(c); return t; }
// A name's letters carry the number of the lookup in their case: the resolver stand-in can
// tell which lookup caused a resolution.
static std::string name_text(int host, uint32_t seq) {
	std::string s = "h" + std::to_string(host) + ".";
	for (int i = 0; i < 20; i++) { char c = (char)('a' + (host * 7 + i * 3) % 26); s += (seq >> i & 1) ? (char)toupper(c) : c; }
	return s + ".test";
}

// memory of the library, without what belongs to its idle threads
static int64_t blocks_now() {
	int work = 0, idle = 0;
	kthread_get_count(&work, &idle);
	return wrap::alloc_stat().blocks - work - idle;
}
static void no_leak(int64_t before) {
	int64_t b = 0;
	for (int i = 0; i < 4000 && !mon::violated() && (b = blocks_now()) > before; i++) mon::real_usleep(500);
	MON_CHECK(b <= before, "dns.memory", "%lld blocks more than before are in use after all names were let go", (long long)(b - before));
	mon::count("memory_checks");
}

// =============================== model ==================================================
struct Res {                                         // a resolution the stand-in is asked for
	std::string node; int family, flags;
	volatile int gate;                               // 0: blocked, 1: answer, 2: fail
	volatile int gone;                               // returned from the stand-in
	int id;
	Res() : family(0), flags(0), gate(0), gone(0), id(0) {}
};
static SpinLock res_lk;
static std::vector<Res*> fresh;                      // asked for, not yet matched by the driver
static volatile int blocked = 0;
static volatile int64_t resolver_seed = 1;
static int model_getaddrinfo(const char* node, const char* service, const void* hints, void** out) {
	const struct addrinfo* h = (const struct addrinfo*)hints;
	Res* r = new Res;
	r->node = node;
	r->family = h ? h->ai_family : AF_UNSPEC;
	r->flags = h ? h->ai_flags : 0;
	{ SpinGuard g(res_lk); fresh.push_back(r); mon_fetch_add32(&blocked, 1); }
	while (!mon_load32(&r->gate)) mon::real_usleep(40);
	int g = mon_load32(&r->gate);
	if (g == 1) {
		Answer* a = make_answer(r->family, (r->flags & AI_CANONNAME) ? "canon.test" : NULL);
		r->id = a->id;
		*out = a->ai;
	}
	mon_fetch_add32(&blocked, -1);
	mon_store32(&r->gone, 1);
	return g == 1 ? 0 : EAI_AGAIN;
}
enum { INITIAL, REFRESH };
struct Job { int kind; int host, type; std::string text; Res* r; Job() : kind(0), host(0), type(0), r(NULL) {} };
struct Look {
	int host, type; kselector* loop;
	volatile int called, answered; volatile int result;   // answer id; 0: error
	bool fiber;
	kgl_addr* kept; bool keep; uint32_t port;
	pthread_t tid;
	Look() : host(0), type(0), loop(NULL), called(0), answered(0), result(-1), fiber(false), kept(NULL), keep(false), port(0), tid() {}
};
static bool tracing;
#define TR(...) do { if (tracing) { fprintf(stderr, __VA_ARGS__); fputc(10, stderr); } } while (0)
struct Entry {
	int state;                                       // 0 absent, 1 pending, 2 cached
	bool unsure;                                     // may have been dropped (idle for long)
	int addr, last; int errs; int64_t used, verified;
	std::vector<Look*> waiting;
	Entry() : state(0), unsure(false), addr(0), last(0), errs(0), used(0), verified(0) {}
};
static kev_result look_cb(void* arg, kgl_addr* addr) {
	Look* l = (Look*)arg;
	int n = mon_fetch_add32(&l->answered, 1);
	if (n) { mon::violation("dns.twice", "a lookup was answered %d times", n + 1); return kev_ok; }
	MON_CHECK(kgl_get_tls_selector() == l->loop, "dns.loop", "a lookup was answered on another loop");
	int id = addr ? answer_id(addr, true, l->port) : 0;
	if (addr && l->keep) { kgl_addr_refs(addr); l->kept = addr; }
	mon_store32(&l->result, id);
	mon::progress();
	return kev_ok;
}
struct Model {
	Rng r; int nhosts; int64_t now; uint32_t seq;
	std::map<std::pair<int, int>, Entry> e;
	std::vector<std::pair<int, int>> order;          // of the cached names: the one used or resolved last comes last
	std::vector<Job*> jobs, maybe;
	std::vector<Look*> looks;
	int base_threads;
	uint64_t sig;
	int refused;
	Model(uint64_t s) : r(s), nhosts(1 + r.below(4)), now(0), seq(1), base_threads(0), sig(s), refused(0) {}
	Entry& ent(int h, int t) { return e[std::make_pair(h, t)]; }
	bool bad() { return mon::violated(); }
	void out_of(const std::pair<int, int>& k) { auto it = std::find(order.begin(), order.end(), k); if (it != order.end()) order.erase(it); }
	void tail(int h, int t) { auto k = std::make_pair(h, t); out_of(k); order.push_back(k); }
	// idle names before the first one that is not idle are let go; those behind it may be
	void drop_idle(int64_t t) {
		size_t i = 0;
		for (; i < order.size() && now + t - e[order[i]].used >= 3600; i++) { e[order[i]] = Entry(); mon::count("model.idle_let_go"); }
		order.erase(order.begin(), order.begin() + i);
		for (auto& p : e) if (p.second.state == 2 && now + t - p.second.used >= 3600) p.second.unsure = true;
	}
	int cached_names(bool with_unsure) { int n = 0; for (auto& p : e) if (p.second.state == 2 && (with_unsure || !p.second.unsure)) n++; return n; }
	// every resolution asked for is one the model expects; every one expected is asked for
	// while workers are free
	void quiesce() {
		for (int spins = 0; !bad(); spins++) {
			std::vector<Res*> f;
			{ SpinGuard g(res_lk); f.swap(fresh); }
			for (Res* x : f) match(x);
			int run = 0;
			for (Job* j : jobs) if (j->r) run++;
			int w, fr;
			kthread_get_count(&w, &fr);
			{ SpinGuard g(res_lk); if (!fresh.empty()) continue; }
			if (run == std::min<int>(4, (int)jobs.size()) && w - base_threads == run && mon_load32(&blocked) == run) break;
			mon::real_usleep(spins < 100 ? 30 : 200);
		}
		if (jobs.size() < 4) { for (Job* j : maybe) delete j; maybe.clear(); }   // the queue is empty: those were refused
		mon::progress();
	}
	void match(Res* x) {
		Job* m = NULL;
		std::string low = lower(x->node);
		for (Job* j : jobs) if (!j->r && j->text == x->node) { m = j; break; }
		for (size_t i = 0; i < maybe.size() && !m; i++) if (maybe[i]->text == x->node) { m = maybe[i]; jobs.push_back(m); maybe.erase(maybe.begin() + i); }
		if (!m) for (Job* j : jobs) if (!j->r && lower(j->text) == low && !m) m = j;
		if (!m) { mon::violation("dns.resolution", "the resolver was asked for %s without need (the answer was fresh or asked for already)", low.c_str()); return; }
		m->r = x;
		MON_CHECK(m->type == kgl_addr_cname ? (x->flags & AI_CANONNAME) != 0 : !(x->flags & AI_CANONNAME), "dns.hints", "the resolver was asked for %s with flags %x (lookup type %d)", low.c_str(), x->flags, m->type);
		mon::count(m->kind == INITIAL ? "model.resolutions" : "model.refreshes");
	}
	void start_job(int kind, int h, int t, const std::string& text) {
		Job* j = new Job;
		j->kind = kind; j->host = h; j->type = t; j->text = text;
		jobs.push_back(j);
	}
	int queued() { return (int)jobs.size() > 4 ? (int)jobs.size() - 4 : 0; }
	void touch(Entry& n, int h, int t, const std::string& text) {
		n.used = now;
		tail(h, t);
		if (now - n.verified > 30) {
			n.verified = now;
			if (queued() < 60) start_job(REFRESH, h, t, text);
			else { Job* j = new Job; j->kind = REFRESH; j->host = h; j->type = t; j->text = text; maybe.push_back(j); }   // the queue may be full
		}
	}
	// what was posted to the loop before is done after this (one batch may run in any order)
	void barrier(kselector* loop) {
		for (int i = 0; i < 2; i++) { volatile int d = 0, *dp = &d; kx::post(loop, [dp] { kx::signal_done(dp); }); kx::wait_done(&d, 1); }
	}
	void lookup(int h, int t, bool flood = false) {
		if (queued() >= 50 && !maybe.empty()) return;   // whether the queue is full is not known
		if (ent(h, t).unsure && queued() >= 50) flush(1000000);   // a refusal could not be told from an old error
		Look* l = new Look;
		l->host = h; l->type = t; l->loop = get_selector_by_index(r.below(kx::n_loops));
		l->keep = r.chance(1, 3); l->port = 1 + r.below(65535);
		l->fiber = t == kgl_addr_ip && !flood && r.chance(1, 3) && !ent(h, t).unsure && queued() < 50;
		looks.push_back(l);
		std::string text = name_text(h, seq++);
		Entry& n = ent(h, t);
		TR("lookup h%d/%d state %d unsure %d used %ld verified %ld now %ld jobs %zu", h, t, n.state, n.unsure, (long)(now - n.used), (long)(now - n.verified), (long)(now % 100000), jobs.size());
		if (l->fiber) kx::spawn(l->loop, [l, text](int) {
			kgl_addr* a = NULL;
			mon_store32(&l->called, 1);
			int rc = kfiber_net_getaddr(text.c_str(), &a);
			MON_CHECK((rc == 0) == (a != NULL), "dns.result", "kfiber_net_getaddr gave %d with %s address", rc, a ? "an" : "no");
			if (kgl_get_tls_selector() != l->loop) mon::violation("dns.loop", "a fiber went on on another loop");
			mon_fetch_add32(&l->answered, 1);
			int id = a ? answer_id(a, true, l->port) : 0;
			if (a) { if (l->keep) l->kept = a; else kgl_addr_release(a); }
			mon_store32(&l->result, id);
			mon::progress();
			mon::count("model.fiber_lookups");
			return 0;
		});
		else kx::post(l->loop, [l, text] {
			std::vector<char> buf(text.begin(), text.end());   // the caller's text may go away
			buf.push_back(0);
			kgl_find_addr(buf.data(), (kgl_addr_type)l->type, look_cb, l, l->loop);
			std::fill(buf.begin(), buf.end(), '#');
			mon_store32(&l->called, 1);
		});
		mon::wait_ge(&l->called, 1);
		if (l->fiber) barrier(l->loop);              // it has asked
		mon::count("model.lookups");
		if (n.unsure) {                              // dropped or not: either way
			n.unsure = false;
			if (mon_load32(&l->result) < 0) { n = Entry(); out_of(std::make_pair(h, t)); mon::count("model.idle_dropped"); }
			else mon::count("model.idle_kept");
		}
		switch (n.state) {
		case 0:
			n = Entry();
			if (queued() >= 50) {           // the queue may be full: refused with an error
				barrier(l->loop);
				if (queued() > 64) for (int i = 0; i < 100000 && mon_load32(&l->result) < 0; i++) mon::real_usleep(50);
				if (mon_load32(&l->result) == 0) { refused++; mon::count("model.refused"); break; }
			}
			n.state = 1;
			n.used = n.verified = now;
			n.waiting.push_back(l);
			start_job(INITIAL, h, t, text);
			break;
		case 1:
			n.waiting.push_back(l);
			mon::count("model.shared");
			break;
		case 2: {
			touch(n, h, t, text);
			expect(l, n.addr ? n.addr : n.last, "dns.cached");
			mon::count("model.cached");
			break; }
		}
		sig = mon::hash(sig, h * 4 + t);
		quiesce();
	}
	void expect(Look* l, int id, const char* key) {
		while (mon_load32(&l->result) < 0 && !bad()) mon::real_usleep(40);
		MON_CHECK(l->result == id, key, "a lookup of h%d (type %d) was answered with %d, expected %d (0: error)", l->host, l->type, l->result, id);
	}
	void cached(int h, int t) {                      // kgl_find_cache_addr
		Entry& n = ent(h, t);
		if (n.unsure) return;
		TR("cache read h%d/%d state %d used %ld verified %ld", h, t, n.state, (long)(now - n.used), (long)(now - n.verified));
		std::string text = name_text(h, seq++);
		volatile int done = 0, *dp = &done;
		int got = 0, *gp = &got;
		kselector* loop = get_selector_by_index(r.below(kx::n_loops));
		kx::post(loop, [=] {
			kgl_addr* a = kgl_find_cache_addr(text.c_str(), (kgl_addr_type)t);
			if (a) { *gp = answer_id(a, false, 0); kgl_addr_release(a); }
			kx::signal_done(dp);
		});
		kx::wait_done(&done, 1);
		if (n.state == 2) {
			touch(n, h, t, text);
			MON_CHECK(got == n.addr || (!n.addr && got == n.last), "dns.cached", "the cache gave %d for h%d, expected %d", got, h, n.addr);
		} else MON_CHECK(got == 0, "dns.cached", "the cache gave %d for a name that is not in it", got);
		mon::count("model.cache_reads");
		quiesce();
	}
	void complete(bool success) {
		std::vector<Job*> run;
		for (Job* j : jobs) if (j->r) run.push_back(j);
		if (run.empty()) return;
		Job* j = run[r.below((uint32_t)run.size())];
		Res* x = j->r;
		jobs.erase(std::find(jobs.begin(), jobs.end(), j));
		mon_store32(&x->gate, success ? 1 : 2);
		mon::wait_ge(&x->gone, 1);
		int id = success ? x->id : 0;
		Entry& n = ent(j->host, j->type);
		TR("complete %s h%d/%d -> %d; state %d unsure %d", j->kind == INITIAL ? "lookup" : "refresh", j->host, j->type, id, n.state, n.unsure);
		if (j->kind == INITIAL) {
			n.state = 2;
			n.addr = n.last = id;
			n.errs = 0;
			tail(j->host, j->type);
			for (Look* l : n.waiting) expect(l, id, "dns.answer");
			mon::count("model.answers", n.waiting.size());
			n.waiting.clear();
			if (now - n.used >= 3600) n.unsure = true;
		} else if (n.state == 1) mon::count("model.refresh_meets_pending");
		else {
			if (n.state == 0) { n = Entry(); n.state = 2; n.used = n.verified = now; mon::count("model.refresh_meets_nothing"); }
			tail(j->host, j->type);
			n.addr = id;
			if (id) { n.last = id; n.errs = 0; }
			else { if (++n.errs >= 10) { if (n.last) mon::count("model.gave_up"); n.last = 0; } mon::count("model.failed_refreshes"); }
		}
		sig = mon::hash(sig, id ? 77 : 78);
		delete j;
		delete x;
		quiesce();
	}
	bool refreshing() {
		for (Job* j : jobs) if (j->kind == REFRESH) return true;
		return !maybe.empty();
	}
	// with a refresh on the way it must be certain whether its entry is dropped
	void advance(int64_t s) {
		if (refreshing()) for (auto& p : e) if (p.second.state && now + s - p.second.used >= 3600) return;
		now += s;
		TR("advance %ld", (long)s);
		wrap::vclock_advance(s * 1000);
		for (auto& p : e) if (p.second.state == 2 && now - p.second.used >= 3600) p.second.unsure = true;
		mon::count("model.clock_steps");
	}
	void flush(int64_t t) {
		TR("flush +%ld", (long)t);
		kgl_flush_addr_cache((time_t)(wrap::vclock_now() / 1000 + t));
		drop_idle(t);
		int sure = cached_names(false), unsure = cached_names(true) - sure;
		int c = kgl_get_addr_cache_count();
		MON_CHECK(c >= sure && c <= sure + unsure, "dns.count", "%d names are cached, expected %d to %d", c, sure, sure + unsure);
		mon::count("model.flushes");
	}
	// the library's own timer lets idle names go, too
	void let_timer() {
		drop_idle(0);
		int most = cached_names(true), c = 0;
		for (int i = 0; i < 40000 && (c = kgl_get_addr_cache_count()) > most; i++) mon::real_usleep(200);
		MON_CHECK(c <= most && c >= cached_names(false), "dns.timer", "%d names are cached some time after the others became idle, expected %d to %d", c, cached_names(false), most);
		mon::count("model.timer_flushes");
	}
	void run(int steps) {
		now = wrap::vclock_now() / 1000;
		for (int i = 0; i < steps && !bad(); i++) {
			int h = r.below(nhosts), t = r.chance(1, 5) ? kgl_addr_cname : kgl_addr_ip;
			switch (r.below(16)) {
			case 0: case 1: case 2: case 3: case 4: lookup(h, t); break;
			case 5: case 6: case 7: complete(!r.chance(1, 4)); break;
			case 8: cached(h, t); break;
			case 9: case 10: case 11: advance(7 * (1 + r.below(3)) + (r.chance(1, 2) ? 35 : 0)); break;
			case 12: flush(0); break;
			case 13: if (r.chance(1, 2)) flush(1000000); else if (!refreshing()) flush(7 * r.below(700)); break;
			case 14: {                               // idle for long (no refresh on the way then)
				if (!refreshing()) {
					advance(3598 + 7 * r.below(20));
					if (r.chance(1, 2)) flush(0);
					else let_timer();
				}
				break; }
			case 15: {
				if (r.chance(1, 3)) {                // failing again and again
					Entry& n = ent(h, t);
					if (n.state != 2 || n.unsure) break;
					for (int k = 0; k < 11 && !bad(); k++) {
						while (!jobs.empty() && !bad()) complete(true);
						if (k == 0) { }
						advance(35);
						lookup(h, t);
						while (!jobs.empty() && !bad()) complete(false);
					}
					mon::count("model.failing_rows");
				} else if (r.chance(1, 8)) {         // more names than the queue takes
					int m = 80;
					for (int k = 0; k < m && !bad(); k++) lookup(1000 + k, kgl_addr_ip, true);
					MON_CHECK(bad() || refused > 0 || (int)jobs.size() + (int)maybe.size() >= 50, "dns.refused", "lookups were neither refused nor asked for");
					for (int k = r.below(60); k > 0 && !bad(); k--) complete(!r.chance(1, 4));
					mon::count("model.floods");
				}
				break; }
			}
			if (r.chance(1, 4)) release_some(false);
		}
	}
	void release_some(bool all) {
		for (Look* l : looks) if (l->kept && mon_load32(&l->result) >= 0 && (all || r.chance(1, 2))) {
			int id = answer_id(l->kept, false, 0);
			MON_CHECK(id == l->result, "dns.kept", "an answer that was held changed");
			kgl_addr_release(l->kept);
			l->kept = NULL;
			mon::count("model.kept");
		}
	}
	void end() {
		while (!jobs.empty() && !bad()) complete(r.chance(1, 2));
		quiesce();
		for (Look* l : looks) MON_CHECK(bad() || mon_load32(&l->answered) == 1, "dns.unanswered", "a lookup was answered %d times", l->answered);
		release_some(true);
		if (bad()) return;
		if (r.chance(1, 2)) { kgl_flush_addr_cache((time_t)(now + 1000000)); }
		else { advance(4000 + 7 * r.below(100)); flush(0); }
		MON_CHECK(kgl_get_addr_cache_count() == 0, "dns.count", "%d names are cached after a flush of all", kgl_get_addr_cache_count());
		MON_CHECK(mon_load32(&live_answers) == 0, "dns.leak", "%d answers were not freed after a flush", mon_load32(&live_answers));
		for (Look* l : looks) delete l;
	}
};
static Model* the_model;
static void model_mode() {
	wrap::hooks.getaddrinfo = model_getaddrinfo;
	int w, f;
	kthread_get_count(&w, &f);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		mon::set_case("model %d", i);
		tracing = mon::iarg("trace", -1) == i;
		Model m(mon::hash(mon::seed, i + 1));
		m.base_threads = w;
		the_model = &m;
		int64_t before = blocks_now();
		m.run(30 + m.r.below(120));
		m.end();
		kx::wait_fiber_count(0);
		if (i) no_leak(before);
		mon::cover(m.sig);
		mon::eval();
	}
}

// =============================== stress =================================================
struct Issue { int host, type; int64_t start, end; int id; };
static SpinLock iss_lk;
static std::map<int, Issue> issued;                  // by answer id
static volatile int64_t tick = 1;                    // an order of events
static volatile int flooding;
static int stress_getaddrinfo(const char* node, const char*, const void* hints, void** out) {
	const struct addrinfo* h = (const struct addrinfo*)hints;
	int host = atoi(node + 1);
	Issue s;
	s.host = host;
	s.type = (h->ai_flags & AI_CANONNAME) ? kgl_addr_cname : kgl_addr_ip;
	s.start = mon_fetch_add(&tick, 1);
	uint32_t x = xr() % 100;
	if (mon_load32(&flooding)) mon::real_usleep(xr() % 3000);
	else if (x < 40) mon::real_usleep(xr() % 800);
	else if (x < 43) mon::real_usleep(3000 + xr() % 4000);
	mon::count("stress.resolutions");
	if (xr() % 5 == 0) { mon::count("stress.failed_resolutions"); s.end = mon_fetch_add(&tick, 1); return EAI_AGAIN; }
	Answer* a = make_answer(h->ai_family, s.type == kgl_addr_cname ? "canon.test" : NULL);
	s.id = a->id;
	s.end = mon_fetch_add(&tick, 1);
	{ SpinGuard g(iss_lk); issued[a->id] = s; }
	*out = a->ai;
	return 0;
}
struct SLook { int host, type; kselector* loop; volatile int answered; volatile int* done; int depth; uint32_t port; };
static kev_result s_cb(void* arg, kgl_addr* addr);
static volatile int extra = 0;
static void s_check(int host, int type, kgl_addr* addr, uint32_t port) {
	int id = answer_id(addr, true, port);
	SpinGuard g(iss_lk);
	auto it = issued.find(id);
	if (it == issued.end()) { mon::violation("dns.answer", "an answer nobody gave"); return; }
	MON_CHECK(it->second.host == host && it->second.type == type, "dns.answer", "a lookup of h%d (type %d) got the answer for h%d (type %d)", host, type, it->second.host, it->second.type);
}
static void s_look(SLook* l) {
	std::string text = name_text(l->host, xr());
	kgl_find_addr(text.c_str(), (kgl_addr_type)l->type, s_cb, l, l->loop);
}
static kev_result s_cb(void* arg, kgl_addr* addr) {
	SLook* l = (SLook*)arg;
	if (mon_fetch_add32(&l->answered, 1)) mon::violation("dns.twice", "a lookup was answered twice");
	MON_CHECK(kgl_get_tls_selector() == l->loop, "dns.loop", "a lookup was answered on another loop");
	if (addr) { s_check(l->host, l->type, addr, l->port); mon::count("stress.answers"); }
	else mon::count("stress.errors");
	if (l->depth > 0) {                              // from within the callback
		SLook* m = new SLook(*l);
		m->answered = 0;
		m->depth--;
		mon::count("stress.nested");
		s_look(m);
	} else kx::signal_done(l->done);
	mon::progress();
	return kev_ok;
}
static volatile int stop_flag = 0;
static void* flusher(void* p) {
	Rng r(mon::hash(mon::seed, (uint64_t)(uintptr_t)p));
	while (!mon_load32(&stop_flag)) {
		switch (r.below(4)) {
		case 0: kgl_flush_addr_cache((time_t)(wrap::vclock_now() / 1000) + r.below(4000)); mon::count("stress.flushes"); break;
		case 1: kgl_flush_addr_cache((time_t)(wrap::vclock_now() / 1000) + 1000000); mon::count("stress.flushes"); break;
		case 2: wrap::vclock_advance(35000 * (1 + r.below(3))); mon::count("stress.clock_steps"); break;
		case 3: { kgl_addr* a = kgl_find_cache_addr(name_text(r.below(6), r.below(1000)).c_str(), kgl_addr_ip); if (a) { answer_id(a, true, 1 + r.below(60000)); kgl_addr_release(a); mon::count("stress.cache_reads"); } break; }
		}
		mon::real_usleep(r.below(400));
	}
	return NULL;
}
static void stress_mode() {
	wrap::hooks.getaddrinfo = stress_getaddrinfo;
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		mon::set_case("stress %d", i);
		Rng r(mon::hash(mon::seed, i + 1000));
		int64_t before = blocks_now();
		bool flood = r.chance(1, 4);                 // more names than the queue takes: some are refused
		mon_store32(&flooding, flood);
		int hosts = flood ? 90 + r.below(60) : 1 + r.below(6), n = 4 + r.below(8), per = flood ? 80 + r.below(80) : 10 + r.below(40);
		volatile int done = 0, *dp = &done;
		mon_store32(&stop_flag, 0);
		pthread_t ft[2];
		int nf = 1 + r.below(2);
		for (int k = 0; k < nf; k++) if (pthread_create(&ft[k], NULL, flusher, (void*)(uintptr_t)(i * 4 + k + 1))) mon::harness_error("thread");
		int want = 0;
		for (int f = 0; f < n; f++) {
			uint64_t sd = r.next();
			kselector* loop = get_selector_by_index(r.below(kx::n_loops));
			if (r.chance(1, 2)) {
				want++;
				kx::spawn(loop, [sd, hosts, per, loop, flood](int) {
					Rng q(sd);
					for (int k = 0; k < per && !mon::violated(); k++) {
						int host = flood ? k * 7 % hosts : q.below(hosts);
						kgl_addr* a = NULL;
						int rc = kfiber_net_getaddr(name_text(host, (uint32_t)q.next()).c_str(), &a);
						MON_CHECK((rc == 0) == (a != NULL), "dns.result", "kfiber_net_getaddr gave %d with %s address", rc, a ? "an" : "no");
						if (kgl_get_tls_selector() != loop) mon::violation("dns.loop", "a fiber went on on another loop");
						if (a) { s_check(host, kgl_addr_ip, a, 1 + q.below(60000)); if (q.chance(1, 4)) kfiber_msleep(q.below(3)); s_check(host, kgl_addr_ip, a, 1 + q.below(60000)); kgl_addr_release(a); }
						mon::count("stress.fiber_lookups");
						mon::progress();
						if (q.chance(1, 3)) kfiber_msleep(1);
					}
					return 0;
				}, dp);
			} else {
				want += per;
				kx::post(loop, [sd, hosts, per, loop, dp, flood] {
					Rng q(sd);
					for (int k = 0; k < per; k++) {
						SLook* l = new SLook;
						l->host = flood ? k * 7 % hosts : q.below(hosts); l->type = q.chance(1, 4) ? kgl_addr_cname : kgl_addr_ip; l->loop = loop; l->answered = 0; l->done = dp; l->depth = q.below(4); l->port = 1 + q.below(65000);
						s_look(l);
						mon::count("stress.callback_lookups");
					}
				});
			}
		}
		kx::wait_done(&done, want);
		mon_store32(&stop_flag, 1);
		for (int k = 0; k < nf; k++) pthread_join(ft[k], NULL);
		kx::wait_fiber_count(0);
		// refreshes may still be on the way
		int w, f;
		static int base = -1;
		if (base < 0) base = kx::n_loops;
		do { mon::real_usleep(200); kthread_get_count(&w, &f); } while (w > base && !mon::violated());
		MON_CHECK(mon_load32(&done) == want, "dns.twice", "%d lookups were answered, %d asked", mon_load32(&done), want);
		kgl_flush_addr_cache((time_t)(wrap::vclock_now() / 1000) + 1000000);
		MON_CHECK(kgl_get_addr_cache_count() == 0, "dns.count", "%d names are cached after a flush of all", kgl_get_addr_cache_count());
		for (int k = 0; k < 100 && mon_load32(&live_answers); k++) mon::real_usleep(500);   // posted answers let go
		MON_CHECK(mon_load32(&live_answers) == 0, "dns.leak", "%d answers were not freed after a flush", mon_load32(&live_answers));
		{ SpinGuard g(iss_lk); issued.clear(); }
		if (i) no_leak(before);
		if (flood) mon::count("stress.floods");
		mon::cover(mon::hash(mon::hash(hosts, n), mon_load(&tick)));
		mon::eval();
	}
}

// =============================== numeric ================================================
static int never_resolve(const char* node, const char*, const void*, void**) { mon::violation("dns.numeric", "the resolver was asked for the numeric address %s", node); return EAI_FAIL; }
static void numeric_mode() {
	wrap::hooks.getaddrinfo = never_resolve;
	Rng R(mon::seed * 3 + 1);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		bool v6 = R.below(2);
		unsigned char raw[16];
		for (auto& c : raw) c = R.chance(1, 3) ? 0 : R.below(256);
		char text[64];
		inet_ntop(v6 ? AF_INET6 : AF_INET, raw, text, sizeof text);
		mon::set_case("numeric %s", text);
		volatile int done = 0;
		uint32_t port = R.below(65536);
		kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [&](int) {
			kgl_addr* a = NULL;
			int rc = kfiber_net_getaddr(text, &a);
			MON_CHECK(rc == 0 && a && a->addr, "dns.numeric", "%s was not resolved (%d)", text, rc);
			if (rc || !a) return 0;
			union { sockaddr_i s; sockaddr_storage room; } u;
			memset(&u, 0, sizeof u);
			kgl_addr_build(a->addr, (uint16_t)port, &u.s);
			bool same = v6 ? u.room.ss_family == AF_INET6 && !memcmp(&((sockaddr_in6*)&u)->sin6_addr, raw, 16) : u.room.ss_family == AF_INET && !memcmp(&((sockaddr_in*)&u)->sin_addr, raw, 4);
			MON_CHECK(same && ksocket_addr_port(&u.s) == port, "dns.numeric", "%s was resolved to something else", text);
			kgl_addr_release(a);
			return 0;
		}, &done);
		kx::wait_done(&done, 1);
		kx::wait_fiber_count(0);
		mon::cover(mon::hash_bytes(raw, v6 ? 16 : 4, v6));
		mon::count("numeric");
		mon::eval();
		mon::progress();
	}
}
static void hang_info(char* b, size_t n) {
	int w, f;
	kthread_get_count(&w, &f);
	size_t k = snprintf(b, n, "blocked %d, live answers %d, threads %d; ", mon_load32(&blocked), mon_load32(&live_answers), w);
	if (the_model) for (Job* j : the_model->jobs) if (k < n) k += snprintf(b + k, n - k, "%s of h%d type %d (%s); ", j->kind == INITIAL ? "lookup" : "refresh", j->host, j->type, j->r ? "asked for" : "not asked for");
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C17");
	mon::watchdog(mon::iarg("watchdog", 25));
	mon::on_hang = hang_info;
	signal(SIGPIPE, SIG_IGN);
	std::string mode = mon::arg("mode", "model");
	if (mode != "numeric") wrap::vclock_enable(1700000000000ll / 7000 * 7000);
	wrap::hooks.freeaddrinfo = free_hook;
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	if (mode == "model") model_mode();
	else if (mode == "stress") stress_mode();
	else numeric_mode();
	mon::finish();
}
