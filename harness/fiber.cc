// C01: fiber life cycle, joins and context switches.
#include "kx.h"
using namespace kx;
static int nloops;

// ------------------------------------------------------------------ register and stack probes
extern "C" uint64_t probe_regs(int (*fn)(int), int arg, uint64_t seed);
// Fills every callee-saved register with values made from the seed, calls fn(arg) and returns a
// bit set of the registers that changed (1 rbx, 2 rbp, 4 r12, 8 r13, 16 r14, 32 r15, 64 rsp).
asm(R"(
.text
.globl probe_regs
.type probe_regs,@function
probe_regs:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $24, %rsp
	movq %rdi, %rax
	movl %esi, %edi
	movq %rdx, 0(%rsp)
	movq %rsp, 8(%rsp)
	leaq 1(%rdx), %rbx
	leaq 2(%rdx), %rbp
	leaq 3(%rdx), %r12
	leaq 4(%rdx), %r13
	leaq 5(%rdx), %r14
	leaq 6(%rdx), %r15
	call *%rax
	xorl %eax, %eax
	movq 0(%rsp), %rdx
	leaq 1(%rdx), %rcx
	cmpq %rcx, %rbx
	je 1f
	orl $1, %eax
1:	leaq 2(%rdx), %rcx
	cmpq %rcx, %rbp
	je 1f
	orl $2, %eax
1:	leaq 3(%rdx), %rcx
	cmpq %rcx, %r12
	je 1f
	orl $4, %eax
1:	leaq 4(%rdx), %rcx
	cmpq %rcx, %r13
	je 1f
	orl $8, %eax
1:	leaq 5(%rdx), %rcx
	cmpq %rcx, %r14
	je 1f
	orl $16, %eax
1:	leaq 6(%rdx), %rcx
	cmpq %rcx, %r15
	je 1f
	orl $32, %eax
1:	cmpq 8(%rsp), %rsp
	je 1f
	orl $64, %eax
1:	addq $24, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size probe_regs,.-probe_regs
)");
static int switch_away(int ms) { return kfiber_msleep(ms); }
static uint32_t get_mxcsr() { uint32_t v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static void set_mxcsr(uint32_t v) { asm volatile("ldmxcsr %0" : : "m"(v)); }
static uint16_t get_fpcw() { uint16_t v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
static void set_fpcw(uint16_t v) { asm volatile("fldcw %0" : : "m"(v)); }
// every loop thread runs with the default control words: what a fiber changes is its own
static void probe_switch(uint64_t seed, bool fp) {
	uint32_t mx = get_mxcsr();
	uint16_t cw = get_fpcw();
	uint32_t nmx = mx;
	uint16_t ncw = cw;
	if (fp) {
		nmx = (mx & ~0x6000u) | (uint32_t)((seed & 3) << 13);
		ncw = (uint16_t)((cw & ~0x0c00) | (((seed >> 2) & 3) << 10));
		set_mxcsr(nmx);
		set_fpcw(ncw);
	}
	uint64_t bad = probe_regs(switch_away, (int)(seed % 3), seed * 0x9E3779B97F4A7C15ull);
	uint32_t mx2 = get_mxcsr();
	uint16_t cw2 = get_fpcw();
	set_mxcsr(mx);
	set_fpcw(cw);
	if (bad) mon::violation("switch:registers", "callee-saved registers changed over a switch: mask %llx", (unsigned long long)bad);
	if ((mx2 & 0x6000) != (nmx & 0x6000) || (cw2 & 0x0c00) != (ncw & 0x0c00))
		mon::violation("switch:fp-control", "floating-point control changed over a switch: mxcsr %x->%x cw %x->%x", nmx, mx2, ncw, cw2);
	mon::count("probed_switches");
}
// recursive use of the stack with suspensions at every depth
static __attribute__((noinline)) void churn(int depth, int frame, uint64_t seed, int mode) {
	volatile unsigned char* a = (volatile unsigned char*)__builtin_alloca(frame + 16);
	for (int i = 0; i < frame; i++) a[i] = (unsigned char)(seed >> (i & 31));
	if (((uintptr_t)__builtin_frame_address(0) & 15) != 0) mon::violation("switch:alignment", "stack is misaligned in a fiber");
	if (mode & 1) kfiber_msleep(0);
	if (depth > 0) churn(depth - 1, frame, seed * 3 + 1, mode);
	if (mode & 2) kfiber_msleep(0);
	for (int i = 0; i < frame; i++) if (a[i] != (unsigned char)(seed >> (i & 31))) { mon::violation("switch:stack", "a fiber's own stack contents changed while it was suspended"); break; }
	mon::count("stack_frames_checked");
}

// ------------------------------------------------------------------ random programs
enum Kind { LOCAL, LOCAL_JOIN, REMOTE, REMOTE_JOIN, REMOTE_CB, NEW_START, SELF_REF, EXIT_CB, NKINDS };
struct Prog;
struct Node {
	Prog* p;
	int id, parent, kind, loop, len;
	uint64_t seed;
	int nchild;
	volatile int runs = 0, ended = 0, joined = 0, cbs = 0;
	volatile int ref_ready = 0;
	int want_join = 0;
	kfiber* fiber = NULL;
	std::vector<int> child;
	int result() const { return (int)(mon::hash(seed, len) & 0x3fffffff) - 0x10000000; }
};
struct Prog {
	std::vector<Node*> n;
	volatile int trace = 0;
	volatile int live = 0;
};
static void joined(Node* c, int got, const char* how) {
	if (!mon_load32(&c->ended)) mon::violation("join:early", "%s returned before the fiber function had ended", how);
	if (got != c->result()) mon::violation("join:value", "%s got %d, the fiber returned %d", how, got, c->result());
	mon_fetch_add32(&c->joined, 1);
	mon_store32(&c->p->trace, (int)mon::hash(c->p->trace, c->id * 4 + 1));
	mon::progress();
}
struct JoinCb { Node* c; kselector* sel; volatile int* done; uint64_t tag; const char* how; };
static kev_result join_cb(KOPAQUE data, void* arg, int got) {
	JoinCb* j = (JoinCb*)arg;
	if (kgl_get_tls_selector() != j->sel) mon::violation("join:thread", "%s ran on another loop", j->how);
	if ((uint64_t)(uintptr_t)data != j->tag) mon::violation("join:data", "%s data changed", j->how);
	edge_acquire(&j->c->ended);
	joined(j->c, got, j->how);
	signal_done(j->done);
	delete j;
	return kev_ok;
}
static void here(Node* n, const char* when) {
	int l = my_loop();
	if (l != n->loop) mon::violation("fiber:thread", "%s: fiber of loop %d runs on loop %d", when, n->loop, l);
	else if (!pthread_equal(pthread_self(), get_selector_by_index(l)->thread_id)) mon::violation("fiber:thread", "%s: wrong thread", when);
}
static int node_entry(void* arg, int len);
static void busy(Node* n, Rng& q) {
	switch (q.below(7)) {
	case 0: kfiber_msleep(q.below(3)); break;
	case 1: churn(q.range(0, 6), q.range(8, 400), q.next(), q.below(4)); break;
	case 2: probe_switch(q.next(), q.chance(1, 2)); break;
	case 3: for (int i = q.below(4); i >= 0; i--) kfiber_msleep(0); break;
	case 4: spin(q.below(3000)); break;
	default: break;
	}
	here(n, "after suspension");
}
static int node_entry(void* arg, int len) {
	Node* n = (Node*)arg;
	Prog* p = n->p;
	if (mon_fetch_add32(&n->runs, 1) != 0) mon::violation("fiber:twice", "a fiber function ran twice");
	if (len != n->len) mon::violation("fiber:arg", "entry got %d, started with %d", len, n->len);
	here(n, "entry");
	mon_store32(&p->trace, (int)mon::hash(p->trace, n->id * 4));
	Rng q(n->seed);
	volatile int cbdone = 0;
	int ncb = 0;
	if (n->kind == SELF_REF) {
		// hand references of this fiber to several joiners
		int k = q.range(1, 3);
		for (int i = 0; i < k; i++) {
			kfiber* f = kfiber_ref_self(true);
			mon_fetch_add32(&n->want_join, 1);
			kselector* sel = get_selector_by_index(q.below(nloops));
			if (q.chance(1, 3)) {
				mon_fetch_add32(&p->live, -1);  // join_cb adds it back
				post(sel, [n, f, sel, p]() {
					kfiber_join2(f, (KOPAQUE)(uintptr_t)0x77, join_cb, new JoinCb{ n, sel, &p->live, 0x77, "join callback of a self reference" });
				});
			} else {
				mon_fetch_add32(&p->live, -1);
				spawn(sel, [n, f](int) { int got = -99; kfiber_join(f, &got); edge_acquire(&n->ended); joined(n, got, "join of a self reference"); return 0; }, &p->live);
			}
		}
	}
	if (n->kind == EXIT_CB) {
		int k = q.range(1, 3);
		for (int i = 0; i < k; i++) {
			mon_fetch_add32(&n->want_join, 1);
			mon_fetch_add32(&p->live, -1);
			if (kfiber_exit_callback((KOPAQUE)(uintptr_t)(i + 5), join_cb, new JoinCb{ n, kgl_get_tls_selector(), &p->live, (uint64_t)(i + 5), "exit callback" }) != 0) { }
		}
	}
	busy(n, q);
	std::vector<Node*> mine;
	for (int ci : n->child) {
		Node* c = p->n[ci];
		kselector* sel = get_selector_by_index(c->loop);
		int stk = q.chance(1, 4) ? 64 * 1024 * q.range(1, 4) : (q.chance(1, 6) ? 5000 : 0);
		if (stk && stk < 65536) stk = 65536 + 5000;
		int rc = 0;
		switch (c->kind) {
		case LOCAL: case SELF_REF: case EXIT_CB:
			if (c->loop == n->loop && q.chance(1, 2)) rc = kfiber_create(node_entry, c, c->len, stk, NULL);
			else rc = kfiber_create2(sel, node_entry, c, c->len, stk, NULL);
			break;
		case LOCAL_JOIN:
			c->want_join = 1;
			rc = kfiber_create(node_entry, c, c->len, stk, &c->fiber);
			mine.push_back(c);
			break;
		case REMOTE: rc = kfiber_create2(sel, node_entry, c, c->len, stk, NULL); break;
		case REMOTE_JOIN: case REMOTE_CB:
			c->want_join = 1;
			rc = kfiber_create2(sel, node_entry, c, c->len, stk, &c->fiber);
			mine.push_back(c);
			break;
		case NEW_START:
			c->want_join = 1;
			c->fiber = kfiber_new(node_entry, c, stk);
			if (!c->fiber) rc = -1;
			else {
				if (q.chance(1, 2)) busy(n, q);
				if (mon_load32(&c->runs)) mon::violation("fiber:early", "a fiber ran before it was started");
				rc = kfiber_start(c->fiber, c->len);
				mine.push_back(c);
			}
			break;
		}
		if (rc != 0) mon::harness_error("creating a fiber failed");
		if (q.chance(1, 2)) busy(n, q);
	}
	while (!mine.empty()) {
		int i = q.below((uint32_t)mine.size());
		Node* c = mine[i];
		mine.erase(mine.begin() + i);
		if (c->kind == REMOTE_CB) {
			// any loop's main fiber may wait with a callback
			kselector* sel = get_selector_by_index(q.below(nloops));
			ncb++;
			kfiber* f = c->fiber;
			uint64_t tag = q.next() & 0xffff;
			volatile int* d = &cbdone;
			post(sel, [c, f, sel, d, tag]() { kfiber_join2(f, (KOPAQUE)(uintptr_t)tag, join_cb, new JoinCb{ c, sel, d, tag, "join callback" }); });
			continue;
		}
		int got = -99;
		if (q.chance(1, 3)) {
			bool before = mon_load32(&c->ended);
			int tries = 0;
			while (kfiber_try_join(c->fiber, &got) != 0) {
				kfiber_msleep(0);
				if (++tries > 100000) mon::violation("join:never", "try-join never succeeds");
			}
			(void)before;
			edge_acquire(&c->ended);
			joined(c, got, "try-join");
		} else {
			if (q.chance(1, 6)) { kfiber_join(c->fiber, NULL); got = c->result(); }
			else kfiber_join(c->fiber, &got);
			edge_acquire(&c->ended);
			joined(c, got, "join");
		}
		if (q.chance(1, 3)) busy(n, q);
	}
	while (cbdone < ncb) kfiber_msleep(0);
	edge_acquire(&cbdone);
	busy(n, q);
	here(n, "exit");
	mon_store32(&p->trace, (int)mon::hash(p->trace, n->id * 4 + 2));
	edge_release(&n->ended);
	mon_store32(&n->ended, 1);
	int r = n->result();
	mon::progress();
	signal_done(&p->live);
	return r;
}
struct ThreadJoin { Node* n; volatile int* done; };
static void* thread_join(void* a) {
	ThreadJoin* t = (ThreadJoin*)a;
	kfiber* f = NULL;
	t->n->want_join = 1;
	if (kfiber_create_sync(node_entry, t->n, t->n->len, 0, &f) != 0) mon::harness_error("create_sync");
	int got = -1;
	if (t->n->seed & 1) kfiber_join(f, &got);
	else while (kfiber_try_join(f, &got) != 0) mon::real_usleep(300);
	edge_acquire(&t->n->ended);
	joined(t->n, got, "join from a thread");
	signal_done(t->done);
	return NULL;
}
static void prog_case(int ci) {
	Rng r = rng_for(31, ci);
	Prog p;
	int n = r.range(1, 24);
	for (int i = 0; i < n; i++) {
		Node* x = new Node();
		x->p = &p;
		x->id = i;
		x->parent = i ? (int)r.below(i) : -1;
		x->kind = r.below(NKINDS);
		x->seed = r.next();
		x->len = (int)r.next();
		x->loop = r.below(nloops);
		if (i) {
			Node* par = p.n[x->parent];
			if (x->kind == LOCAL || x->kind == LOCAL_JOIN || x->kind == NEW_START) x->loop = par->loop;
			par->child.push_back(i);
		} else if (x->kind == LOCAL_JOIN || x->kind == NEW_START || x->kind == REMOTE_CB || x->kind == REMOTE_JOIN) x->kind = LOCAL;
		p.n.push_back(x);
	}
	std::string shape;
	for (Node* x : p.n) shape += std::to_string(x->parent) + ":" + "LJRrcnse"[x->kind] + " ";
	mon::set_case("fibers seed=%llu case=%d n=%d %s", (unsigned long long)mon::seed, ci, n, shape.c_str());
	int base = kfiber_get_count();
	// one extra node is started and joined by a plain thread
	Node* ext = NULL;
	pthread_t tid;
	volatile int tdone = 0;
	ThreadJoin tj;
	if (nloops == 1 && r.chance(1, 3)) {
		ext = new Node();
		ext->p = &p; ext->id = 1000; ext->kind = LOCAL; ext->loop = 0; ext->seed = r.next(); ext->len = 7;
		tj = ThreadJoin{ ext, &tdone };
		pthread_create(&tid, NULL, thread_join, &tj);
	}
	if (kfiber_create2(get_selector_by_index(p.n[0]->loop), node_entry, p.n[0], p.n[0]->len, 0, NULL) != 0) mon::harness_error("create2");
	wait_done(&p.live, n + (ext ? 1 : 0));
	if (ext) { wait_done(&tdone, 1); pthread_join(tid, NULL); }
	for (int k = 0; kfiber_get_count() != base; k++) {
		mon::real_usleep(200);
		if (k > 50000) { mon::violation("fiber:population", "%d fibers remain of a finished programme (had %d)", kfiber_get_count(), base); mon::finish(); }
	}
	int nj = 0;
	if (ext) p.n.push_back(ext);
	for (Node* x : p.n) {
		if (x->runs != 1) mon::violation("fiber:runs", "fiber function ran %d times", x->runs);
		if (x->joined != x->want_join) mon::violation("join:count", "%d joins returned of %d", x->joined, x->want_join);
		nj += x->joined;
		delete x;
	}
	mon::eval();
	mon::cover(mon::hash(p.trace, n));
	mon::count("fibers", n);
	mon::count("joins", nj);
	if (ext) mon::count("thread_joins");
	if (ci < 3) mon::sample("%d fibers [%s], %d joins", n, shape.c_str(), nj);
}
// ------------------------------------------------------------------ many suspensions, whole stacks
static void stack_case(int ci) {
	Rng r = rng_for(32, ci);
	volatile int done = 0;
	int nf = r.range(2, 20);
	mon::set_case("stack seed=%llu case=%d fibers=%d", (unsigned long long)mon::seed, ci, nf);
	for (int i = 0; i < nf; i++) {
		uint64_t fs = r.next();
		// a fiber may use what it asked for
		int kb = r.chance(1, 3) ? 0 : 64 * r.range(1, 8);
		kselector* sel = get_selector_by_index(r.below(nloops));
		spawn(sel, [fs, kb](int) {
			Rng q(fs);
			int room = (kb ? kb : 64) * 1024 - 24 * 1024;  // margin for the frames of the code itself
			int rounds = q.range(1, 4);
			for (int i = 0; i < rounds; i++) {
				int frame = q.range(64, 4000);
#if defined(MON_ASAN) || defined(MON_TSAN)
				int cost = frame + 400;
#else
				int cost = frame + 200;
#endif
				int depth = room / cost;
				if (q.chance(1, 2)) depth = q.range(0, depth);
				if (depth > 120) depth = 120;
				churn(depth, frame, q.next(), q.below(4));
				for (int k = q.below(6); k > 0; k--) probe_switch(q.next(), q.chance(1, 2));
				mon::progress();
			}
			return 0;
		}, &done, 0, kb * 1024);
	}
	wait_done(&done, nf);
	mon::eval();
	mon::cover(r.next());
	mon::count("stack_fibers", nf);
}

// ------------------------------------------------------------------ waiting and waking by hand
// A fiber suspends itself and is woken by another fiber of its loop (a direct switch), by its
// loop's main fiber, by another loop or thread (a post), or has the result already when it waits.
struct Sleeper { kfiber* f; volatile int want; volatile int kind; uint64_t seed; volatile int woken; int loop; int nest; };
static SpinLock sl_lk;
static std::vector<Sleeper*> sleepers; // waiting to be woken by somebody
static Sleeper* take_sleeper(Rng& q, kselector* on) {
	SpinGuard g(sl_lk);
	std::vector<int> ok;
	for (size_t i = 0; i < sleepers.size(); i++) edge_acquire(&sleepers[i]->want);
	for (size_t i = 0; i < sleepers.size(); i++) if (!on || sleepers[i]->f->base.selector == on) ok.push_back((int)i);
	if (ok.empty()) return NULL;
	int k = ok[q.below(ok.size())];
	Sleeper* s = sleepers[k];
	sleepers.erase(sleepers.begin() + k);
	edge_acquire(&s->want);
	return s;
}
static void give(Sleeper* s, int v, bool direct) {
	mon_store32(&s->want, v);
	mon_store32(&s->kind, direct);
	if (direct) kfiber_wakeup(s->f, s, v); else kfiber_wakeup_ts(s->f, s, v);
}
static volatile int wake_stop;
static volatile int wake_threads_done;
static void* wake_thread(void* a) {
	Rng q((uint64_t)a);
	while (!mon_load32(&wake_stop)) {
		Sleeper* s = take_sleeper(q, NULL);
		if (s) give(s, (int)q.next(), false); else mon::real_usleep(50);
	}
	signal_done(&wake_threads_done);
	return NULL;
}
static kev_result wake_main(KOPAQUE data, void* arg, int got) {
	Rng q((uint64_t)arg);
	for (int i = 0; i < got; i++) {
		Sleeper* s = take_sleeper(q, kgl_get_tls_selector());
		if (s) { give(s, (int)q.next(), true); mon::count("wake.from_main"); }
	}
	return kev_ok;
}
static void wake_case(int ci) {
	Rng r = rng_for(33, ci);
	int nf = r.range(2, 14), nt = r.range(1, 3);
	mon::set_case("wake seed=%llu case=%d fibers=%d threads=%d", (unsigned long long)mon::seed, ci, nf, nt);
	volatile int done = 0;
	static volatile int live_order;
	live_order = 0;
	mon_store32(&wake_stop, 0);
	wake_threads_done = 0;
	std::vector<pthread_t> t(nt);
	for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, wake_thread, (void*)r.next());
	for (int i = 0; i < nf; i++) {
		uint64_t fs = r.next();
		int loop = r.below(nloops);
		spawn(get_selector_by_index(loop), [fs, loop, i](int) {
			Rng q(fs);
			Sleeper me;
			me.f = kfiber_self2();
			me.loop = loop;
			int n = q.range(5, 40);
			for (int k = 0; k < n; k++) {
				int what = q.below(10);
				if (what < 6) { // sleep until somebody wakes us
					int marker = (int)q.next();
					volatile int keep = marker;
					edge_release(&me.want);
					{ SpinGuard g(sl_lk); sleepers.push_back(&me); }
					int got = kfiber_wait(&me.f->base, &me);
					if (keep != marker) mon::violation("wake:stack", "the fiber's stack changed while it waited");
					if (got != mon_load32(&me.want)) mon::violation("wake:result", "woken with %d, given %d", got, me.want);
					if (my_loop() != loop) mon::violation("wake:loop", "a fiber of loop %d continued on loop %d", loop, my_loop());
					if (kfiber_self2() != me.f) mon::violation("wake:self", "another fiber is current after the wake-up");
					{ SpinGuard g(sl_lk); for (auto s : sleepers) if (s == &me) mon::violation("wake:spurious", "woken without being chosen"); }
					mon::count("wake.waits");
					mon_store32(&live_order, (int)mon::hash(live_order, i));
				} else if (what < 8) { // wake another fiber of this loop: it runs at once
					Sleeper* s = take_sleeper(q, kgl_get_tls_selector());
					if (s) {
						volatile int keep = k;
						give(s, (int)q.next(), q.chance(1, 2));
						if (keep != k || kfiber_self2() != me.f) mon::violation("wake:waker", "the waking fiber is not current after the switch back");
						mon::count("wake.from_fiber");
					}
				} else if (what == 8) { // any loop's fiber
					Sleeper* s = take_sleeper(q, NULL);
					if (s) { give(s, (int)q.next(), false); mon::count("wake.from_anywhere"); }
				} else if (q.chance(1, 2)) { // the result is there before we wait for it
					int v = (int)q.next();
					kfiber_wakeup(me.f, &me, v);
					int got = kfiber_wait_result(me.f, kev_fiber_ok, &me);
					if (got != v) mon::violation("wake:ready_result", "a result given before the wait came as %d", got);
					mon::count("wake.ready");
				} else kgl_selector_module.next(get_selector_by_index(q.below(nloops)), NULL, wake_main, (void*)q.next(), q.range(1, 3));
				if (q.chance(1, 6)) yield_fiber();
				mon::progress();
			}
			return 0;
		}, &done);
	}
	wait_done(&done, nf);
	mon_store32(&wake_stop, 1);
	wait_done(&wake_threads_done, nt);
	for (auto x : t) pthread_join(x, NULL);
	// posted wakers may still look at the list
	static volatile int seen;
	seen = 0;
	for (int i = 0; i < nloops; i++) post(get_selector_by_index(i), [] { signal_done(&seen); });
	wait_done(&seen, nloops);
	if (!sleepers.empty()) mon::violation("wake:left", "fibers ended while waiting");
	mon::eval();
	mon::cover(mon::hash(live_order, nf));
	if (ci < 2) mon::sample("%d fibers waking each other by hand, %d threads beside", nf, nt);
}

int main(int argc, char** argv) {
	mon::init(argc, argv, "fiber");
	nloops = mon::iarg("loops", 4);
	std::string mode = mon::arg("mode", "prog");
	mon::watchdog(mon::iarg("watchdog", 20));
	loops_start(nloops);
	nloops = n_loops;
	int base = kfiber_get_count();
	if (mon::iarg("jitter", 0)) jitter_on(mon::iarg("jitter", 0));
	int64_t b0 = 0;
	for (int i = 0; i < mon::cases; i++) {
		if (mode == "prog") prog_case(i);
		else if (mode == "stack") stack_case(i);
		else if (mode == "wake") wake_case(i);
		else mon::harness_error("mode %s", mode.c_str());
		if (i == 0) { wait_fiber_count(base); mon::real_usleep(20000); b0 = wrap::alloc_stat().blocks; }
		mon::progress();
	}
	wait_fiber_count(base);
	int64_t b1 = 0;
	for (int k = 0; k < 200; k++) { b1 = wrap::alloc_stat().blocks; if (b1 <= b0) break; mon::real_usleep(10000); }
	if (mon::cases > 20 && b1 - b0 > mon::cases / 10 + 8) mon::violation("leak", "live blocks grew from %lld to %lld over %d cases", (long long)b0, (long long)b1, mon::cases);
	mon::finish();
}
