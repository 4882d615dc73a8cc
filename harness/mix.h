// A mixture of everything the library does, each activity complete in itself: what it makes it
// also ends and releases. Operations may fail at any place (faults are injected), nothing here
// depends on their outcome. Used to look for leaks (C16) and for races (C25).
#pragma once
#include "tlsutil.h"
#include "kudp.h"
#include "kaddr.h"
#include <netdb.h>
#include <sys/resource.h>
#include <dirent.h>

namespace mix {
using namespace net;

struct Ctx {
	std::vector<kselector*> loops;      // where fibers may run
	bool managed;                       // loops of the manager (servers may be opened on all of them)
	Rng r;
	Ctx() : managed(false), r(1) {}
	kselector* any() { return loops[r.below((uint32_t)loops.size())]; }
	Ctx fork() { Ctx c; c.loops = loops; c.managed = managed; c.r = Rng(r.next()); return c; }
};
// ---- faults --------------------------------------------------------------------------------
enum { F_SHORT = 1, F_RESET = 2, F_ACCEPT = 4, F_THREAD = 8, F_AIO = 16, F_AIORES = 32, F_FDS = 64, F_EPOLL = 128, F_DNS = 256 };
static volatile int faults = 0;
static bool f_xfer(int fd, int op, size_t total, size_t* limit, int* err) {
	uint32_t r = xr() % 100;
	if ((faults & F_RESET) && r < 4) { *err = r < 2 ? ECONNRESET : EPIPE; mon::count("fault.reset"); return true; }
	if (faults & F_SHORT) {
		if (r < 20) { *err = EAGAIN; wrap::rearm(fd); mon::count("fault.would_block"); return true; }
		if (r < 55 && total > 1) { *limit = 1 + xr() % (total - 1); wrap::rearm(fd); mon::count("fault.short"); }
	}
	return false;
}
static bool f_accept(int fd, int* err) {
	if (!(faults & F_ACCEPT) || xr() % 12) return false;
	*err = xr() % 2 ? ECONNABORTED : ENFILE;
	mon::count("fault.accept");
	return true;
}
static bool f_thread(int* err) {
	if (!(faults & F_THREAD) || xr() % 3 == 0) return false;
	*err = EAGAIN;
	mon::count("fault.thread");
	return true;
}
static bool f_aio(int* err) {
	if (!(faults & F_AIO) || xr() % 4) return false;
	*err = xr() % 2 ? EAGAIN : EINVAL;
	mon::count("fault.aio_submit");
	return true;
}
static void f_aio_events(void* events, int n) {
	if (!(faults & F_AIORES)) return;
	struct io_event* e = (struct io_event*)events;
	for (int i = 0; i < n; i++) if (xr() % 5 == 0) { e[i].res = -EIO; mon::count("fault.aio_result"); }
}
static bool f_epoll(int op, int fd, int* err) {
	if (!(faults & F_EPOLL) || op == EPOLL_CTL_DEL || xr() % 6) return false;
	*err = xr() % 2 ? ENOSPC : ENOMEM;
	mon::count("fault.epoll");
	return true;
}
// names: "h..." are answered by the stand-in, after a while, or not at all
static volatile int live_answers = 0;
static int f_getaddrinfo(const char* node, const char* service, const void* hints, void** out) {
	if (xr() % 2) mon::real_usleep(xr() % 900);
	mon::count("resolutions");
	if ((faults & F_DNS) && xr() % 3 == 0) return xr() % 2 ? EAI_AGAIN : EAI_NONAME;
	struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof *ai);
	ai->ai_family = AF_INET;
	ai->ai_addrlen = sizeof(sockaddr_in);
	ai->ai_addr = (sockaddr*)calloc(1, sizeof(sockaddr_in));
	ai->ai_addr->sa_family = AF_INET;
	inet_pton(AF_INET, kx::loop4(), &((sockaddr_in*)ai->ai_addr)->sin_addr);
	ai->ai_protocol = 12345;
	mon_fetch_add32(&live_answers, 1);
	*out = ai;
	return 0;
}
static void f_freeaddrinfo(void* res, bool* handled) {
	struct addrinfo* ai = (struct addrinfo*)res;
	if (!ai || ai->ai_protocol != 12345) return;
	*handled = true;
	mon_fetch_add32(&live_answers, -1);
	free(ai->ai_addr);
	free(ai);
}
static struct rlimit fd_limit;
static void fds_out() {
	int top = 0;
	for (int fd = 0; fd < 4096; fd++) if (fcntl(fd, F_GETFD) >= 0) top = fd + 1;
	struct rlimit l = fd_limit;
	l.rlim_cur = (rlim_t)(top + (int)(xr() % 4));
	setrlimit(RLIMIT_NOFILE, &l);
	mon::count("fault.descriptors");
}
static void fds_back() { setrlimit(RLIMIT_NOFILE, &fd_limit); }
static void faults_install() {
	getrlimit(RLIMIT_NOFILE, &fd_limit);
	wrap::hooks.xfer = f_xfer;
	wrap::hooks.accept_fault = f_accept;
	wrap::hooks.pthread_create_fault = f_thread;
	wrap::hooks.io_submit_fault = f_aio;
	wrap::hooks.io_events = f_aio_events;
	wrap::hooks.epoll_ctl_fault = f_epoll;
	wrap::hooks.getaddrinfo = f_getaddrinfo;
	wrap::hooks.freeaddrinfo = f_freeaddrinfo;
}
// ---- helpers -------------------------------------------------------------------------------
static void await(volatile int* v, int n) {
	while (mon_load32(v) < n) kfiber_msleep(1);
	kx::edge_acquire(v);
	mon::progress();
}
// Counters of an activity that outlive nobody: held by all that use them
struct Left { volatile int n; volatile int made; Left() : n(0), made(0) {} };
static std::string path_of(Rng& r, const char* what) {
	static volatile int64_t ix = 0;
	return tmpdir() + "/" + what + "." + std::to_string((long long)mon_fetch_add(&ix, 1));
}
static void set_linger0(int fd) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }

// ---- fibers --------------------------------------------------------------------------------
static kev_result joined_cb(KOPAQUE data, void* arg, int got) { kx::signal_done((volatile int*)arg); return kev_ok; }
static void tree(Ctx c, int depth) {
	int n = (int)c.r.below(4);
	std::vector<kfiber*> held;
	Left l;
	int plain = 0;
	for (int i = 0; i < n; i++) {
		Ctx* k = new Ctx(c.fork());
		bool here = c.r.chance(1, 2);
		auto fn = [k, depth](int len) { if (k->r.chance(1, 2)) kfiber_msleep((int)k->r.below(3)); if (depth > 0) tree(*k, depth - 1); delete k; return len + 1; };
		if (c.r.chance(1, 3)) {
			plain++;
			if (here) kx::spawn_local(fn, &l.n, i); else kx::spawn(c.any(), fn, &l.n, i);
			continue;
		}
		kfiber* f = NULL;
		if (here) kx::spawn_local(fn, NULL, i, (int)c.r.below(3) * 16384, &f); else kx::spawn(c.any(), fn, NULL, i, 0, &f);
		held.push_back(f);
	}
	int cbs = 0;
	volatile int told = 0;
	for (kfiber* f : held) {
		int ret = 0;
		switch (c.r.below(3)) {
		case 0: kfiber_join(f, &ret); break;
		case 1: { int t = 0; while (kfiber_try_join(f, &ret) != 0) { kfiber_msleep(1); if (++t > 20) { kfiber_join(f, &ret); break; } } break; }
		case 2:
			cbs++;
			{ volatile int* t = &told; kx::post(kgl_get_tls_selector(), [f, t] { kfiber_join2(f, NULL, joined_cb, (void*)t); }); }
			break;
		}
	}
	await(&told, cbs);
	await(&l.n, plain);
	mon::count("mix.fibers", n);
}
static void a_fibers(Ctx& c) { tree(c.fork(), 2); }

// ---- timers, ticks, posts --------------------------------------------------------------------
static kev_result count_cb(KOPAQUE data, void* arg, int got) { kx::signal_done((volatile int*)arg); return kev_ok; }
struct Tick { volatile int n; };
static int tick_cb(void* arg, int) { mon_fetch_add32(&((Tick*)arg)->n, 1); return 0; }
static void a_timers(Ctx& c) {
	volatile int fired = 0;
	int n = 1 + (int)c.r.below(8);
	for (int i = 0; i < n; i++) {
		kselector* s = c.any();
		if (s == kgl_get_tls_selector() || !c.managed) kselector_add_timer(kgl_get_tls_selector(), count_cb, (void*)&fired, (int)c.r.below(12), NULL);
		else kselector_add_timer_ts(s, count_cb, (void*)&fired, (int)c.r.below(12), NULL);
	}
	Tick t = { 0 };
	kselector_tick* k = NULL;
	if (c.r.chance(1, 3)) { k = kselector_new_tick(tick_cb, &t); kselector_register_tick(k); }
	await(&fired, n);
	if (k) kselector_close_tick(k);
	mon::count("mix.timers", n);
}
static void a_posts(Ctx& c) {
	volatile int n = 0;
	int k = 1 + (int)c.r.below(20);
	for (int i = 0; i < k; i++) kgl_selector_module.next(c.any(), NULL, count_cb, (void*)&n, i);
	await(&n, k);
	mon::count("mix.posts", k);
}
// ---- locks ---------------------------------------------------------------------------------
static kev_result locked_cb(KOPAQUE data, void* arg, int got) {
	kfiber_mutex* m = (kfiber_mutex*)data;
	kfiber_mutex_unlock(m);
	kx::signal_done((volatile int*)arg);
	return kev_ok;
}
static void a_mutex(Ctx& c) {
	kfiber_mutex* m = c.r.chance(1, 2) ? kfiber_mutex_init() : kfiber_mutex_init2(1 + (int)c.r.below(3));
	bool one = kfiber_mutex_get_limit(m) == 1;
	struct Data { int64_t v; } d = { 0 };
	Left l;
	int n = 2 + (int)c.r.below(5);
	volatile int told = 0;
	int cbs = 0;
	for (int i = 0; i < n; i++) {
		Ctx* k = new Ctx(c.fork());
		kx::spawn(c.any(), [k, m, &d, one](int) {
			int t = 1 + (int)k->r.below(5);
			for (int i = 0; i < t; i++) {
				if (k->r.chance(1, 4)) { if (kfiber_mutex_try_lock(m, 2) != 0) continue; }
				else kfiber_mutex_lock(m);
				if (one) d.v++;
				if (k->r.chance(1, 3)) kfiber_msleep(0);
				if (one) d.v++;
				kfiber_mutex_unlock(m);
				if (k->r.chance(1, 8)) break;
			}
			delete k;
			return 0;
		}, &l.n);
	}
	if (c.r.chance(1, 2)) { cbs = 1; volatile int* t = &told; kx::post(kgl_get_tls_selector(), [m, t] { kfiber_mutex_lock2(m, m, locked_cb, (void*)t); }); }
	await(&l.n, n);
	await(&told, cbs);
	kfiber_mutex_destroy(m);
	mon::count("mix.mutexes");
}
static void a_rwlock(Ctx& c) {
	kfiber_rwlock* m = kfiber_rwlock_init();
	struct Data { int64_t v; } d = { 0 };
	Left l;
	int n = 2 + (int)c.r.below(6);
	volatile int64_t sink = 0;
	for (int i = 0; i < n; i++) {
		Ctx* k = new Ctx(c.fork());
		kx::spawn(c.any(), [k, m, &d, &sink](int) {
			int t = 1 + (int)k->r.below(5);
			for (int i = 0; i < t; i++) {
				bool w = k->r.chance(1, 3);
				if (w) { kfiber_rwlock_wlock(m); d.v++; if (k->r.chance(1, 3)) kfiber_msleep(0); d.v++; kfiber_rwlock_wunlock(m); }
				else { kfiber_rwlock_rlock(m); int64_t x = d.v; if (k->r.chance(1, 3)) kfiber_msleep(0); mon_fetch_add(&sink, x); kfiber_rwlock_runlock(m); }
			}
			delete k;
			return 0;
		}, &l.n);
	}
	await(&l.n, n);
	kfiber_rwlock_destroy(m);
	mon::count("mix.rwlocks");
}
static void a_cond(Ctx& c) {
	int kind = (int)c.r.below(3);              // 0: one loop, 1: any loops, 2: a thread too
	bool ar = c.r.chance(1, 2);
	kfiber_cond* fc = kind == 0 ? kfiber_cond_init(ar) : kfiber_cond_init_ts(ar);
	Left l;
	int n = 1 + (int)c.r.below(4);
	struct Data { int64_t v; } d = { 0 };
	for (int i = 0; i < n; i++) {
		auto fn = [fc, &d, ar](int) { int got = 0; fc->f->wait(fc, &got); volatile int64_t x = d.v; (void)x; return 0; };
		if (kind == 0) kx::spawn_local(fn, &l.n); else kx::spawn(c.any(), fn, &l.n);
	}
	kfiber_msleep((int)c.r.below(3));
	d.v = 7;
	if (!ar) fc->f->notice(fc, 1);
	else for (int i = 0; mon_load32(&l.n) < n; i++) { fc->f->notice(fc, i); kfiber_msleep(1); }
	await(&l.n, n);
	int got;
	fc->f->try_wait(fc, &got);
	fc->f->release(fc);
	mon::count("mix.conds");
}
static void a_chan(Ctx& c) {
	kfiber_chan* ch = kfiber_chan_create();
	Left l;
	int ns = 1 + (int)c.r.below(3), nr = 1 + (int)c.r.below(3);
	struct St { volatile int stop; } st = { 0 };
	for (int i = 0; i < ns + nr; i++) {
		bool send = i < ns;
		Ctx* k = new Ctx(c.fork());
		kfiber_chan_add_ref(ch);
		kx::spawn_local([k, ch, send](int) {
			for (int j = 0; j < 6; j++) {
				if (send) { if (kfiber_chan_send(ch, (KOPAQUE)k) != 0) break; }
				else { KOPAQUE v = NULL; kfiber_waiter* w = NULL; if (kfiber_chan_recv(ch, &v, k->r.chance(1, 3) ? &w : NULL) != 0) break; if (w) kfiber_chan_wakeup(ch, w, 0); }
				if (k->r.chance(1, 3)) kfiber_msleep(0);
			}
			kfiber_chan_release(ch);
			delete k;
			return 0;
		}, &l.n);
	}
	kfiber_msleep((int)c.r.below(4));
	kfiber_chan_close(ch);
	await(&l.n, ns + nr);
	kfiber_chan_release(ch);
	mon::count("mix.chans");
}
// ---- threads -------------------------------------------------------------------------------
static int thread_fn(void* arg, int n) { if (arg) mon_fetch_add32((volatile int*)arg, 1); mon::real_usleep(n); return n; }
static kev_result job_cb(void* data, int msec) { kx::signal_done((volatile int*)data); return kev_ok; }
static KTHREAD_FUNCTION plain_thread(void* arg) { kx::signal_done((volatile int*)arg); KTHREAD_RETURN; }
static void a_threads(Ctx& c) {
	int rc = 0;
	volatile int ran = 0;
	for (int i = (int)c.r.below(3); i > 0; i--) if (kfiber_thread_call(thread_fn, (void*)&ran, (int)c.r.below(300), &rc) == 0) mon::count("mix.thread_calls");
	// a pool: what it has accepted runs, at the latest when the next job comes
	kasync_worker* w = kasync_worker_init(1 + (int)c.r.below(3), c.r.chance(1, 2) ? 0 : 1 + (int)c.r.below(3));
	volatile int done = 0;
	int n = 0;
	for (int i = (int)c.r.below(8); i > 0; i--) n += kasync_worker_try_start(w, (void*)&done, job_cb, c.r.chance(1, 2));
	for (int t = 0; mon_load32(&done) < n; t++) {
		kfiber_msleep(1);
		if (t % 20 == 19) n += kasync_worker_try_start(w, (void*)&done, job_cb, false);
	}
	kx::edge_acquire(&done);
	kasync_worker_release(w);
	volatile int up = 0;
	int k = 0;
	for (int i = (int)c.r.below(3); i > 0; i--) k += c.r.chance(1, 2) ? kthread_start(plain_thread, (void*)&up) : kthread_pool_start(plain_thread, (void*)&up);
	await(&up, k);
	mon::count("mix.jobs", n);
}
// ---- files ---------------------------------------------------------------------------------
static void a_file(Ctx& c) {
	std::string p = path_of(c.r, "f");
	char* buf = (char*)aio_alloc_buffer(8192);
	memset(buf, 'x', 8192);
	static const fileModel models[] = { fileRead, fileModify, fileWrite, fileReadWrite, fileWriteRead, fileAppend };
	for (int i = 1 + (int)c.r.below(3); i > 0; i--) {
		std::string q = c.r.chance(1, 6) ? p + "/no/such" : p;
		kfiber_file* f = c.r.chance(1, 5) ? NULL : kfiber_file_open(q.c_str(), models[c.r.below(6)], KFILE_ASYNC);
		if (!f && c.r.chance(1, 2)) { int fd = open(p.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (fd >= 0) f = kfiber_file_bind(fd); }
		if (!f) { mon::count("mix.file_not_opened"); continue; }
		bool direct = c.r.chance(1, 4) && kasync_file_direct(f, true);
		int ops = 1 + (int)c.r.below(5);
		for (int j = 0; j < ops; j++) {
			int len = direct ? 512 << c.r.below(4) : 1 + (int)c.r.below(8000), got;
			switch (c.r.below(4)) {
			case 0:
				if (direct) kfiber_file_seek(f, seekBegin, (int64_t)c.r.below(8) * 4096);      // (it has to be aligned)
				got = kfiber_file_write(f, buf, len);
				break;
			case 1: got = kfiber_file_read(f, buf, len); break;
			case 2: kfiber_file_seek(f, seekBegin, (int64_t)c.r.below(8) * 4096); got = 0; break;
			default:
				if (direct) kfiber_file_read(f, buf, len);
				else {
					// from wherever
					Left l;
					int n = len;
					kx::spawn(c.any(), [f, buf, &n](int) { if (n % 2) { int k = n; kfiber_file_safe_write_full(f, buf, &k); } else kfiber_file_safe_read(f, buf, n); return 0; }, &l.n);
					await(&l.n, 1);
				}
				got = 0;
			}
			(void)got;
			mon::count("mix.file_ops");
		}
		kfiber_file_close(f);
	}
	aio_free_buffer(buf);
	unlink(p.c_str());
}
// ---- streams -------------------------------------------------------------------------------
static tls::Cert cert_a, cert_b, cert_ca;
static SSL_CTX* client_ctx = NULL;
enum { ECHO, BURST, SLAM, RESET, MUTE };
struct Srv {
	kserver* k;
	bool tls, fibers;
	int family;
	Rng r;
	char path[108];
	sockaddr_i at_in; sockaddr_un at_un;
	volatile int live, freed, listeners_gone, listeners;
	std::string file;
	Srv() : k(NULL), tls(false), fibers(false), family(0), r(1), live(0), freed(0), listeners_gone(0), listeners(0) { path[0] = 0; }
	const sockaddr_i* at() { return family == AF_UNIX ? (const sockaddr_i*)&at_un : &at_in; }
};
static void srv_freed(KOPAQUE p) { kx::signal_done(&((Srv*)p)->freed); }
struct Sess { kconnection* cn; Srv* s; };
static void session(kconnection* cn, Srv* s, Rng r) {
	char b[2048];
	memset(b, 'y', sizeof b);
	if (cn->st.ssl) {
		if (kfiber_ssl_handshake(cn) != 0) { mon::count("mix.server_handshake_failed"); return; }
		mon::count("mix.server_handshakes");
	}
	switch (r.below(6)) {
	default:
	case ECHO:
		for (;;) {
			int n = kfiber_net_read(cn, b, (int)sizeof b);
			if (n <= 0) break;
			if (!kfiber_net_write_full(cn, b, &n)) break;
		}
		break;
	case BURST: {
		int k = (int)r.below(20);
		for (int i = 0; i < k; i++) { int n = (int)sizeof b; if (!kfiber_net_write_full(cn, b, &n)) break; }
		kfiber_file* f = r.chance(1, 2) && !cn->st.ssl ? kfiber_file_open(s->file.c_str(), fileRead, 0) : NULL;
		if (f) { int n = 3000; kfiber_sendfile_full(cn, f, &n); kfiber_file_close(f); mon::count("mix.sendfiles"); }
		break;
	}
	case SLAM: break;
	case RESET: set_linger0(cn->st.fd); break;
	case MUTE: while (kfiber_net_read(cn, b, (int)sizeof b) > 0) {} break;
	case 5: kfiber_net_read(cn, b, (int)sizeof b); kfiber_net_shutdown(cn); break;
	}
}
static int serve(void* arg, int) {
	Sess* z = (Sess*)arg;
	Srv* s = z->s;
	session(z->cn, s, Rng(mon::hash((uint64_t)mon_fetch_add32(&s->listeners, 0), xr())));
	kfiber_net_close(z->cn);
	delete z;
	kx::edge_release(&s->live);
	mon_fetch_add32(&s->live, -1);
	mon::progress();
	return 0;
}
static void delivered(Srv* s, kconnection* cn) {
	mon::count("mix.accepted");
	mon_fetch_add32(&s->live, 1);
	Sess* z = new Sess{ cn, s };
	if (kfiber_create(serve, z, 0, 0, NULL) != 0) mon::harness_error("kfiber_create");
}
static kev_result mix_accept(KOPAQUE data, void* arg, int got);
KACCEPT_CALLBACK(mix_accept) {
	kconnection* cn = (kconnection*)arg;
	delivered((Srv*)kserver_get_opaque(cn->server), cn);
	return kev_ok;
}
static void accept_fiber(Srv* s, kserver_selectable* ss) {
	for (;;) {
		kconnection* cn = NULL;
		int rc = kfiber_net_accept(ss, &cn);
		if (rc != 0 || !cn) break;
		delivered(s, cn);
	}
	kserver_selectable_destroy(ss);
	kx::signal_done(&s->listeners_gone);
}
static kgl_ssl_ctx* new_settings(Rng& r) {
	kgl_ssl_ctx* x = kgl_new_ssl_ctx(NULL);
	tls::Cert& ct = r.chance(1, 2) ? cert_a : cert_b;
	std::string a = "data:" + ct.cert_pem, b = "data:" + ct.key_pem;
	kgl_ref_str_t ra = tls::ref_of(a), rb = tls::ref_of(b);
	x->ctx = kgl_ssl_ctx_new_server2(&ra, &rb, NULL, NULL, NULL);
	x->alpn = 0;
	x->flags = 0;
	x->reserv = 0;
	if (!x->ctx) mon::harness_error("server settings");
	return x;
}
static void stream_client(Ctx& k, Srv* s) {
	kconnection* cn = kconnection_new((sockaddr_i*)s->at());
	bool plain = !s->tls || k.r.chance(1, 6);
	int rc = kfiber_net_connect(cn, NULL, 0);
	if (rc != 0) { mon::count("mix.connect_failed"); kfiber_net_close(cn); return; }
	mon::count("mix.connected");
	bool ok = true;
	if (!plain) {
		if (k.r.chance(1, 10)) { kfiber_net_close(cn); return; }
		if (!kconnection_ssl_connect(cn, client_ctx, k.r.chance(1, 2) ? "a.test" : NULL)) { kfiber_net_close(cn); return; }
		ok = kfiber_ssl_handshake(cn) == 0;
		mon::count(ok ? "mix.client_handshakes" : "mix.client_handshake_failed");
	}
	char b[2048];
	memset(b, 'z', sizeof b);
	int n = (int)k.r.below(6);
	for (int i = 0; ok && i < n; i++) {
		int len = 1 + (int)k.r.below((uint32_t)sizeof b);
		ok = kfiber_net_write_full(cn, b, &len);
	}
	if (ok && k.r.chance(1, 2)) { ok = kfiber_net_read(cn, b, (int)sizeof b) > 0; mon::count("mix.client_reads"); }
	if (k.r.chance(1, 8)) set_linger0(cn->st.fd);
	if (ok && k.r.chance(1, 3)) {
		kfiber_net_shutdown(cn);
		if (k.r.chance(1, 2)) while (kfiber_net_read(cn, b, (int)sizeof b) > 0) {}
	}
	kfiber_net_close(cn);
}
// what a stranger may do, from a thread of its own
struct Raw { const sockaddr_i* at; socklen_t len; uint64_t seed; };
static int raw_client(void* arg, int) {
	Raw* w = (Raw*)arg;
	Rng r(w->seed);
	int fd = socket(w->at->v4.sin_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (fd < 0) return -1;
	struct timeval tv = { 0, 30000 };
	setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
	if (connect(fd, (sockaddr*)w->at, w->len) == 0) {
		char b[600];
		for (size_t i = 0; i < sizeof b; i++) b[i] = (char)r.below(256);
		if (r.chance(1, 2)) { static const unsigned char hello[] = { 22, 3, 1, 0, 90, 1, 0, 0, 86, 3, 3 }; memcpy(b, hello, sizeof hello); }
		if (r.chance(2, 3)) sendto(fd, b, 1 + r.below((uint32_t)sizeof b), MSG_NOSIGNAL, NULL, 0);
		if (r.chance(1, 2)) recvfrom(fd, b, sizeof b, 0, NULL, NULL);
		if (r.chance(1, 3)) set_linger0(fd);
		if (r.chance(1, 6)) mon::real_usleep(2000);
		mon::count("mix.raw_clients");
	}
	close(fd);
	return 0;
}
static void streams(Ctx& c, bool tls) {
	Srv* s = new Srv;
	s->r = Rng(c.r.next());
	s->tls = tls;
	s->fibers = !c.managed || c.r.chance(1, 2);
	s->family = tls || c.r.chance(2, 3) ? AF_INET : AF_UNIX;
	s->k = kserver_init();
	kserver_set_opaque(s->k, srv_freed, s);
	s->file = path_of(c.r, "sf");
	{ int fd = open(s->file.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (fd >= 0) { char b[3000]; memset(b, 1, sizeof b); if (write(fd, b, sizeof b)) {} close(fd); } }
	if (s->family == AF_UNIX) snprintf(s->path, sizeof s->path, "%s", path_of(c.r, "u").c_str());
	bool ok = kserver_bind(s->k, s->family == AF_UNIX ? s->path : kx::loop4(), 0, tls ? new_settings(c.r) : NULL);
	int nl = 0, up = 0;
	if (ok && s->fibers) {
		nl = 1 + (s->family == AF_INET ? (int)c.r.below((uint32_t)c.loops.size()) : 0);
		for (int i = 0; i < nl; i++) {
			volatile int ready = 0;
			volatile int *rd = &ready;
			kx::spawn(c.loops[i], [s, rd](int) {
				kserver_selectable* ss = NULL;
				kfiber_net_listen(s->k, 0, &ss);
				kx::signal_done(rd);
				if (ss) accept_fiber(s, ss);
				else kx::signal_done(&s->listeners_gone);
				return 0;
			});
			await(&ready, 1);
		}
		up = kserver_test_flag(s->k, KGL_SERVER_START) != 0;
	} else if (ok) up = kserver_open(s->k, 0, mix_accept);
	mon::count(up ? "mix.servers" : "mix.servers_not_opened");
	socklen_t len = 0;
	if (s->family == AF_UNIX) { memset(&s->at_un, 0, sizeof s->at_un); s->at_un.sun_family = AF_UNIX; strcpy(s->at_un.sun_path, s->path); len = sizeof s->at_un; }
	else { memcpy(&s->at_in, &s->k->addr, sizeof s->at_in); len = sizeof(sockaddr_in); }
	Left l;
	int n = 1 + (int)c.r.below(5), started = 0;
	for (int i = 0; up && i < n; i++) {
		Ctx* k = new Ctx(c.fork());
		started++;
		if (k->r.chance(1, 4)) {
			Raw* w = new Raw{ s->at(), len, k->r.next() };
			kx::spawn(c.any(), [k, w](int) { int rc; kfiber_thread_call(raw_client, w, 0, &rc); delete w; delete k; return 0; }, &l.n);
		} else kx::spawn(c.any(), [k, s](int) { stream_client(*k, s); delete k; return 0; }, &l.n);
		if (tls && c.r.chance(1, 3)) { kserver_set_ssl_ctx(s->k, new_settings(c.r)); mon::count("mix.settings_replaced"); }
		if (c.r.chance(1, 3)) kfiber_msleep(1);
	}
	if (c.r.chance(1, 2)) await(&l.n, started);
	kserver_close(s->k);
	if (c.r.chance(1, 2)) await(&l.n, started);
	kserver_release(s->k);
	await(&l.n, started);
	await(&s->freed, 1);
	await(&s->listeners_gone, nl);
	while (mon_load32(&s->live) > 0) kfiber_msleep(1);
	kx::edge_acquire(&s->live);
	unlink(s->file.c_str());
	delete s;
}
static void a_tcp(Ctx& c) { streams(c, false); }
static void a_tls(Ctx& c) { streams(c, true); }
// ---- connections that come to nothing --------------------------------------------------------
static void a_conn(Ctx& c) {
	for (int i = 1 + (int)c.r.below(4); i > 0; i--) {
		sockaddr_i a;
		memset(&a, 0, sizeof a);
		sockaddr_un u;
		memset(&u, 0, sizeof u);
		kconnection* cn = NULL;
		switch (c.r.below(6)) {
		case 0: cn = kconnection_new(NULL); break;                                    // never connected
		case 1: ksocket_getaddr(kx::loop4(), 1, 0, AI_NUMERICHOST, &a); cn = kconnection_new(&a); kfiber_net_connect(cn, NULL, 0); break;   // refused
		case 2: u.sun_family = AF_UNIX; snprintf(u.sun_path, sizeof u.sun_path, "%s/none", tmpdir().c_str()); cn = kconnection_new((sockaddr_i*)&u); kfiber_net_connect(cn, NULL, 0); break;
		case 3: {                                                                     // from an address that is not ours
			ksocket_getaddr(kx::loop4(), 1, 0, AI_NUMERICHOST, &a);
			sockaddr_i b;
			memset(&b, 0, sizeof b);
			ksocket_getaddr("192.0.2.1", 0, 0, AI_NUMERICHOST, &b);
			cn = kconnection_new(&a);
			kfiber_net_connect(cn, &b, 0);
			break;
		}
		case 4: ksocket_getaddr(kx::loop4(), 1, 0, AI_NUMERICHOST, &a); cn = kconnection_new(&a); kconnection_half_connect(cn, NULL, 0); break;   // half way
		case 5: {                                                                     // a name first
			kgl_addr* ad = NULL;
			if (kfiber_net_getaddr("127.0.0.1", &ad) == 0) { cn = kconnection_new2(ad->addr, 1); kgl_addr_release(ad); kfiber_net_connect(cn, NULL, 0); }
			break;
		}
		}
		if (cn) kfiber_net_close(cn);
		mon::count("mix.odd_connections");
	}
	if (c.r.chance(1, 3)) {
		kserver* k = kserver_init();
		kgl_ssl_ctx* x = c.r.chance(1, 2) ? new_settings(c.r) : NULL;
		MON_CHECK(!kserver_bind(k, "not.an.address", 80, x), "mix.bind", "binding to nonsense succeeded");
		kserver_release(k);
	}
}
// ---- datagrams -----------------------------------------------------------------------------
static void a_udp(Ctx& c) {
	int v6 = c.r.chance(1, 4);
	sockaddr_i a;
	memset(&a, 0, sizeof a);
	ksocket_getaddr(v6 ? "::1" : kx::loop4(), 0, 0, AI_NUMERICHOST, &a);
	kselector* sel = c.any();
	Left l;
	struct Box { kconnection* c; volatile int ready, ended, shut; sockaddr_i at; } box;
	memset(&box, 0, sizeof box);
	int flags = (v6 ? KSOCKET_ONLY_IPV6 : 0) | (c.r.chance(1, 2) ? KSOCKET_IP_PKTINFO : 0);
	kx::spawn(sel, [&box, a, flags](int) {
		kconnection* u = kudp_new(flags);
		if (u && kudp_bind(u, &a)) {
			socklen_t len = sizeof box.at;
			getsockname(u->st.fd, (sockaddr*)&box.at, &len);
			box.c = u;
			kx::signal_done(&box.ready);
			char b[3000];
			for (;;) { int n = kfiber_net_read(u, b, (int)sizeof b); if (n < 0 || mon_load32(&box.ended)) break; mon::count("mix.datagrams"); }
			await(&box.shut, 1);       // (the shutdown posted below uses the connection)
			kfiber_net_close(u);
			return 0;
		}
		mon::count("mix.udp_not_bound");
		if (u) kfiber_net_close(u);
		kx::signal_done(&box.ready);
		return 0;
	}, &l.n);
	await(&box.ready, 1);
	if (box.c) {
		kconnection* o = kudp_new(v6 ? KSOCKET_ONLY_IPV6 : 0);
		char b[2000];
		memset(b, 3, sizeof b);
		if (o) for (int i = (int)c.r.below(10); i > 0; i--) { kudp_send_to(o, &box.at, b, 1 + (int)c.r.below((uint32_t)sizeof b)); if (c.r.chance(1, 3)) kfiber_msleep(1); }
		if (o) kfiber_net_close(o);
		// the reader ends when its socket is shut down, on its loop
		kconnection* u = box.c;
		mon_store32(&box.ended, 1);
		kx::post(sel, [u, &box] { selectable_shutdown(&u->st); kx::signal_done(&box.shut); });
	}
	await(&l.n, 1);
	mon::count("mix.udp");
}
// ---- names ---------------------------------------------------------------------------------
static void a_dns(Ctx& c) {
	Left l;
	int n = 1 + (int)c.r.below(5);
	for (int i = 0; i < n; i++) {
		Ctx* k = new Ctx(c.fork());
		kx::spawn(c.any(), [k](int) {
			std::string h = k->r.chance(1, 8) ? std::string("127.0.0.1") : "h" + std::to_string(k->r.below(6)) + ".test";
			kgl_addr* a = NULL;
			int rc = kfiber_net_getaddr(h.c_str(), &a);
			if (rc == 0 && a) {
				if (k->r.chance(1, 3)) kfiber_msleep((int)k->r.below(4));
				sockaddr_i s;
				memset(&s, 0, sizeof s);
				kgl_addr_build(a->addr, 80, &s);
				kgl_addr_release(a);
				mon::count("mix.names");
			} else mon::count("mix.names_failed");
			delete k;
			return 0;
		}, &l.n);
		if (c.r.chance(1, 5)) kgl_flush_addr_cache(c.r.chance(1, 2) ? 0 : kgl_current_sec);
	}
	// (a lookup that no thread could be started for is taken up with the next one)
	for (int t = 1; mon_load32(&l.n) < n; t++) {
		kfiber_msleep(1);
		if (t % 60) continue;
		std::string h = "again" + std::to_string(t) + ".test";
		n++;
		kx::spawn(c.any(), [h](int) { kgl_addr* a = NULL; if (kfiber_net_getaddr(h.c_str(), &a) == 0 && a) kgl_addr_release(a); return 0; }, &l.n);
	}
	kx::edge_acquire(&l.n);
}
// ---- hang-up watches -----------------------------------------------------------------------
static kev_result hup_cb(KOPAQUE data, void* arg, int got) { kx::signal_done((volatile int*)arg); return kev_ok; }
static void a_hup(Ctx& c) {
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) return;
	kconnection* cn = kconnection_new(NULL);
	cn->st.fd = sv[0];
	selectable_bind(&cn->st, kgl_get_tls_selector());
	volatile int told = 0;
	bool watched = selectable_readhup(&cn->st, hup_cb, (void*)&told);
	if (watched && c.r.chance(1, 2)) {
		close(sv[1]);
		sv[1] = -1;
		if (!(faults & F_EPOLL)) await(&told, 1); else kfiber_msleep(3);
	}
	if (watched && !mon_load32(&told)) selectable_remove_readhup(&cn->st);
	if (sv[1] >= 0) close(sv[1]);
	kfiber_net_close(cn);
	mon::count("mix.watches");
}
// ---- buffers and pools ---------------------------------------------------------------------
static void a_data(Ctx& c) {
	kgl_pool_t* p = kgl_create_pool(512 << c.r.below(5));
	for (int i = (int)c.r.below(30); i > 0; i--) { void* m = kgl_pnalloc(p, 1 + c.r.below(3000)); if (c.r.chance(1, 6)) kgl_pfree(p, m); }
	kgl_array_t* a = kgl_array_create(p, 2, 8);
	for (int i = 0; i < 20; i++) *(int64_t*)kgl_array_push(a) = i;
	kgl_destroy_pool(p);
	krw_buffer b;
	krw_buffer_init(&b, 64 + (int)c.r.below(300));
	char t[500];
	memset(t, 9, sizeof t);
	for (int i = (int)c.r.below(10); i > 0; i--) krw_write_str(&b, t, 1 + (int)c.r.below(400));
	if (b.total_len > 0) krw_read(&b, t, std::min(100, b.total_len));
	krw_buffer_clean(&b);
	mon::count("mix.pools");
}
struct Kind { const char* name; void (*fn)(Ctx&); int weight; };
static Kind kinds[] = {
	{ "fibers", a_fibers, 3 }, { "timers", a_timers, 2 }, { "posts", a_posts, 2 }, { "mutex", a_mutex, 2 }, { "rwlock", a_rwlock, 2 }, { "cond", a_cond, 2 }, { "chan", a_chan, 2 },
	{ "threads", a_threads, 3 }, { "file", a_file, 4 }, { "tcp", a_tcp, 5 }, { "tls", a_tls, 5 }, { "conn", a_conn, 3 }, { "udp", a_udp, 2 }, { "dns", a_dns, 3 }, { "hup", a_hup, 2 }, { "data", a_data, 1 },
};
enum { NKINDS = sizeof kinds / sizeof kinds[0] };
static int pick(Rng& r) {
	int w = 0;
	for (auto& k : kinds) w += k.weight;
	int x = (int)r.below((uint32_t)w);
	for (int i = 0; i < NKINDS; i++) { x -= kinds[i].weight; if (x < 0) return i; }
	return 0;
}
// accounts of OpenSSL's allocations
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); }
static volatile int64_t ssl_blocks = 0;
static void* s_malloc(size_t n, const char*, int) { mon_fetch_add(&ssl_blocks, 1); return __real_malloc(n); }
static void* s_realloc(void* o, size_t n, const char*, int) {
	if (!o) { mon_fetch_add(&ssl_blocks, 1); return __real_malloc(n); }
	if (!n) { mon_fetch_add(&ssl_blocks, -1); __real_free(o); return NULL; }
	return __real_realloc(o, n);
}
static void s_free(void* p, const char*, int) { if (p) mon_fetch_add(&ssl_blocks, -1); __real_free(p); }
static void common() {
	CRYPTO_set_mem_functions(s_malloc, s_realloc, s_free);
	signal(SIGPIPE, SIG_IGN);
	kx::loop4();
	kasync_init();
	cert_ca = tls::make_cert("ca.test", 0, NULL, true);
	cert_a = tls::make_cert("a.test", 0, &cert_ca);
	cert_b = tls::make_cert("b.test", 0, &cert_ca);
	client_ctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	SSL_CTX_set_session_cache_mode(client_ctx, SSL_SESS_CACHE_OFF);     // (it would keep every session)
	faults_install();
}
// threads of the process, kernel AIO contexts, registrations with event loops
static int threads() {
	int n = 0;
	DIR* d = opendir("/proc/self/task");
	if (!d) return -1;
	while (struct dirent* e = readdir(d)) n += e->d_name[0] != '.';
	closedir(d);
	return n;
}
static int lines_with(const char* path, const char* what) {
	int n = 0;
	FILE* f = fopen(path, "r");
	if (!f) return 0;
	char b[1024];
	while (fgets(b, sizeof b, f)) n += strstr(b, what) != NULL;
	fclose(f);
	return n;
}
static int aio_contexts() { return lines_with("/proc/self/maps", "[aio]"); }
static int registrations() {
	int n = 0;
	for (int fd = 0; fd < 1024; fd++) {
		char p[64], t[64];
		snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		ssize_t k = readlink(p, t, sizeof t - 1);
		if (k <= 0) continue;
		t[k] = 0;
		if (!strstr(t, "eventpoll")) continue;
		snprintf(p, sizeof p, "/proc/self/fdinfo/%d", fd);
		n += lines_with(p, "tfd:");
	}
	return n;
}
}
