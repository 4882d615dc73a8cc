// Timeouts (C15): one event loop stepped turn by turn on a virtual clock; every operation's
// result is judged against what the peer did and how long nothing happened.
#include <sys/mman.h>
#include "net.h"
#include "tlsutil.h"
using namespace net;

struct Op {
	bool busy = false, waiting = false, by_cb = false;
	char* buf = NULL;
	int len = 0;
	kgl_iovec v, vv;
	int64_t since = 0;
};
struct Conn {
	int id, kind;                    // 0 socket pair, 1 tcp, 2 tls, 3 connecting, 4 tls handshake without an answer
	kconnection* cn = NULL;
	kconnection* peer_cn = NULL;
	int peer = -1;
	Rng r;
	Op rd, wr;
	int tmo = 0;
	bool rto = false;                // timeouts of reads are reported, the connection lives on
	bool dead = false;               // timed out or shut down by us
	bool peer_closed = false, ready = false;
	int64_t lo = 0, hi = 0;          // last certain / last possible activity
	int left = 0;                    // extra periods left since hi
	int64_t written = 0, got = 0;    // bytes the peer wrote, bytes we read
	int64_t sent = 0, taken = 0;     // bytes we wrote, bytes the peer read
	int timeouts = 0;
	int fibers = 0;
	uint64_t sig = 0;
};
static int64_t now_ms;
static int T_rw, T_conn;
static std::vector<Conn*> conns;
static SSL_CTX *sctx, *cctx;
static int full_listen = -1;
static std::vector<int> fillers;
static sockaddr_i full_addr, raw_addr;
static int raw_listen = -1;
static kserver* dummy;

static int zero_tmo(int, int) { return 0; }
static bool any_pending(Conn* c) { return c->rd.busy || c->wr.busy; }
static int period(Conn* c) { return (c->kind == 3 ? T_conn : T_rw); }
static void act(Conn* c) { c->lo = c->hi = now_ms; c->left = c->tmo; }
static void maybe_act(Conn* c) { c->hi = now_ms; c->left = c->tmo; }
// an operation starts: if it was alone it starts a period
static void op_begin(Conn* c, Op* o) {
	if (!any_pending(c)) act(c); else maybe_act(c);
	o->busy = true;
	o->waiting = false;
	o->since = now_ms;
}
static const char* KINDS[] = { "pair", "tcp", "tls", "connect", "tls handshake" };
static void ended_without_cause(Conn* c, const char* what, int got) {
	// nothing the peer did explains it: it must be a timeout, and due
	int64_t least = (int64_t)period(c) * (1 + c->tmo);
	MON_CHECK(now_ms - c->lo >= least, "timeout.early", "%s: %s ended with %d after %lld ms of silence, the period is %lld", KINDS[c->kind], what, got, (long long)(now_ms - c->lo), (long long)least);
	MON_CHECK(!c->rto || strcmp(what, "read"), "timeout.shut", "a read with reported timeouts ended with %d", got);
	if (!c->dead) { c->timeouts++; mon::count(c->kind == 3 ? "timeout.connects" : c->kind == 4 ? "timeout.handshakes" : *what == 'r' ? "timeout.reads" : "timeout.writes"); if (c->tmo) mon::count("timeout.extra_periods"); }
	c->dead = true;
	c->sig = mon::hash(c->sig, now_ms - c->lo);
}
static void read_result(Conn* c, int got, const char* buf) {
	if (got > 0) {
		MON_CHECK(c->got + got <= c->written, "timeout.invented", "%lld bytes read, the peer wrote %lld", (long long)(c->got + got), (long long)c->written);
		ssize_t d = differs(buf, c->id, c->got, got);
		MON_CHECK(d < 0, "timeout.content", "byte %lld differs", (long long)(c->got + d));
		c->got += got;
		if (c->rd.waiting) act(c); else maybe_act(c);
		mon::count("timeout.read_progress");
		return;
	}
	if (got == ST_ERR_TIME_OUT) {
		MON_CHECK(c->rto, "timeout.result", "a read got the timeout result without asking for it");
		int64_t least = (int64_t)period(c) * (1 + c->tmo);
		MON_CHECK(now_ms - c->lo >= least, "timeout.early", "%s: read timeout reported after %lld ms of silence, the period is %lld", KINDS[c->kind], (long long)(now_ms - c->lo), (long long)least);
		mon::count("timeout.reported");
		c->timeouts++;
		c->sig = mon::hash(c->sig, now_ms - c->lo);
		act(c);
		return;
	}
	if (c->peer_closed || c->dead) { c->dead = true; return; }
	ended_without_cause(c, "read", got);
}
static void write_result(Conn* c, int got) {
	if (got > 0) {
		MON_CHECK(!c->dead || c->peer_closed, "timeout.write_after", "a write succeeded after the connection had timed out");
		c->sent += got;
		mon::count("timeout.write_progress");
		return;
	}
	if (c->peer_closed || c->dead) { c->dead = true; return; }
	ended_without_cause(c, "write", got);
}
static char* fresh(int n) { char* b = (char*)malloc(n); memset(b, 0x5a, n); return b; }
// the same read from different depths of the stack, with whatever lay there before overwritten
static int __attribute__((noinline)) deep_read(Conn* c, char* b, int len, int depth, bool vec) {
	volatile char junk[200];
	for (unsigned i = 0; i < sizeof junk; i++) junk[i] = (char)0xee;
	if (depth > 0) { int r = deep_read(c, b, len, depth - 1, vec); junk[3] = (char)r; return r; }
	if (!vec) return kfiber_net_read(c->cn, b, len);
	kgl_iovec v[2] = { { b, (size_t)(len / 2) }, { b + len / 2, (size_t)(len - len / 2) } };
	return len > 1 ? kfiber_net_readv(c->cn, v, 2) : kfiber_net_readv(c->cn, v + 1, 1);
}
static void fiber_read(Conn* c) {
	op_begin(c, &c->rd);
	c->fibers++;
	kx::spawn_local([c](int) {
		int depth = 0;
		for (;;) {
			int len = 1 + c->r.below(300);
			char* b = fresh(len);
			int got = deep_read(c, b, len, c->r.below(4), c->r.chance(1, 3));
			if (got == ST_ERR_TIME_OUT) c->rd.busy = true;
			read_result(c, got, b);
			free(b);
			if (got != ST_ERR_TIME_OUT) break;
			if (++depth > 2 && c->r.chance(1, 2)) { c->dead = true; kfiber_net_shutdown(c->cn); mon::count("timeout.shut_by_user"); }
		}
		c->rd.busy = false;
		c->fibers--;
		return 0;
	});
	c->rd.waiting = c->rd.busy;
}
static kev_result cb_read_done(KOPAQUE, void* arg, int got) {
	Conn* c = (Conn*)arg;
	read_result(c, got, c->rd.buf);
	if (got == ST_ERR_TIME_OUT) { mon::count("timeout.cb_reported"); return kev_ok; }
	c->rd.busy = false;
	free(c->rd.buf);
	c->rd.buf = NULL;
	return kev_ok;
}
static void cb_read(Conn* c) {
	op_begin(c, &c->rd);
	c->rd.len = 1 + c->r.below(300);
	c->rd.buf = fresh(c->rd.len);
	c->rd.v.iov_base = c->rd.buf; c->rd.v.iov_len = c->rd.len;
	c->rd.vv.iov_base = (char*)&c->rd.v; c->rd.vv.iov_len = 1;
	c->rd.waiting = true;
	selectable_read(&c->cn->st, cb_read_done, &c->rd.vv, c);
}
static void fiber_write(Conn* c) {
	op_begin(c, &c->wr);
	c->fibers++;
	kx::spawn_local([c](int) {
		int len = c->r.chance(1, 2) ? 400000 : 1 + c->r.below(2000);
		char* b = fresh(len);
		fill(b, c->id + 1000, c->sent, len);
		int pos = 0;
		kfiber_file* file = NULL;
		if (c->kind < 2 && c->r.chance(1, 3)) {       // the same bytes, from a file
			int fd = memfd_create("sent", MFD_CLOEXEC);
			if (fd < 0 || pwrite(fd, b, len, 0) != len) mon::harness_error("memfd: %s", strerror(errno));
			file = kfiber_file_bind(fd);
			mon::count("timeout.sendfiles");
		}
		while (pos < len) {
			int64_t began = now_ms;
			int got = file ? kfiber_sendfile(c->cn, file, len - pos) : kfiber_net_write(c->cn, b + pos, len - pos);
			bool waited = now_ms != began;
			write_result(c, got);
			if (got <= 0) break;
			pos += got;
			if (waited) act(c); else maybe_act(c);
		}
		if (file) kfiber_file_close(file);
		free(b);
		c->wr.busy = false;
		c->fibers--;
		return 0;
	});
}
static kev_result cb_write_done(KOPAQUE, void* arg, int got) {
	Conn* c = (Conn*)arg;
	write_result(c, got);
	if (got > 0) maybe_act(c);
	c->wr.busy = false;
	free(c->wr.buf);
	c->wr.buf = NULL;
	return kev_ok;
}
static void cb_write(Conn* c) {
	op_begin(c, &c->wr);
	c->wr.len = c->r.chance(1, 2) ? 400000 : 1 + c->r.below(2000);
	c->wr.buf = fresh(c->wr.len);
	fill(c->wr.buf, c->id + 1000, c->sent, c->wr.len);
	c->wr.v.iov_base = c->wr.buf; c->wr.v.iov_len = c->wr.len;
	c->wr.vv.iov_base = (char*)&c->wr.v; c->wr.vv.iov_len = 1;
	selectable_write(&c->cn->st, cb_write_done, &c->wr.vv, c);
}
static void set_clock(int64_t v) { now_ms = v; wrap::vclock_set(v); }
static void turns(int n) { while (n-- > 0) { kselector_step(0); mon::progress(); } }

// ---- peers ------------------------------------------------------------------------------
static void peer_write(Conn* c, int n) {
	if (c->kind == 2) {
		char* b = fresh(n);
		fill(b, c->id, c->written, n);
		c->written += n;
		c->fibers++;
		kx::spawn_local([c, b, n](int) { int l = n; kfiber_net_write_full(c->peer_cn, b, &l); free(b); c->fibers--; return 0; });
	} else {
		std::string b(n, 0);
		fill(&b[0], c->id, c->written, n);
		ssize_t k = sendto(c->peer, b.data(), n, MSG_DONTWAIT | MSG_NOSIGNAL, NULL, 0);
		if (k > 0) c->written += k;
	}
	maybe_act(c);
}
static void peer_read(Conn* c, int n) {
	std::string b(n, 0);
	ssize_t k = recvfrom(c->peer, &b[0], n, MSG_DONTWAIT, NULL, NULL);
	if (k > 0) {
		ssize_t d = differs(b.data(), c->id + 1000, c->taken, k);
		MON_CHECK(d < 0, "timeout.content", "byte %lld written differs", (long long)(c->taken + d));
		c->taken += k;
		maybe_act(c);
	}
}
static void peer_close(Conn* c) {
	if (c->peer_closed) return;
	c->peer_closed = true;
	if (c->kind == 2) { c->fibers++; kx::spawn_local([c](int) { kfiber_net_shutdown(c->peer_cn); c->fibers--; return 0; }); } else { close(c->peer); c->peer = -1; }
	maybe_act(c);
}
static int raw_server(int backlog, sockaddr_i* a) {
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	sockaddr_in in;
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET;
	inet_pton(AF_INET, kx::loop4(), &in.sin_addr);
	if (bind(fd, (sockaddr*)&in, sizeof in) || listen(fd, backlog)) mon::harness_error("listen");
	socklen_t l = sizeof in;
	getsockname(fd, (sockaddr*)&in, &l);
	memset(a, 0, sizeof *a);
	a->v4 = in;
	return fd;
}
static kconnection* wrap_fd(int fd) {
	kconnection* cn = kconnection_new(NULL);
	cn->st.fd = fd;
	selectable_bind(&cn->st, kgl_get_tls_selector());
	return cn;
}
static Conn* new_conn(int id, Rng& R) {
	Conn* c = new Conn;
	c->id = id;
	c->r = Rng(mon::hash(mon::hash(mon::seed, 555), id));
	c->kind = R.chance(1, 4) ? 3 : R.chance(1, 8) ? 4 : R.chance(1, 5) ? 2 : (int)R.below(2);
	int fd[2];
	if (c->kind == 3) {
		c->cn = kconnection_new(&full_addr);
		c->tmo = R.chance(1, 4) ? R.below(3) : 0;
		c->ready = true;
		return c;
	}
	if (c->kind == 1) {
		fd[0] = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
		int rc = connect(fd[0], (sockaddr*)&raw_addr.v4, sizeof raw_addr.v4);
		if (rc && errno != EINPROGRESS) mon::harness_error("connect %d", errno);
		fd[1] = accept(raw_listen, NULL, NULL);
		if (fd[1] < 0) mon::harness_error("accept");
	} else if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd)) mon::harness_error("socketpair");
	int v = 1 + R.below(8000);
	if (R.chance(1, 2)) setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
	c->cn = wrap_fd(fd[0]);
	c->tmo = R.chance(1, 3) ? 1 + R.below(3) : R.chance(1, 60) ? 254 + R.below(60) : 0;
	if (c->kind == 2) {
		c->peer_cn = wrap_fd(fd[1]);
		kconnection_ssl_accept(c->cn, sctx);
		kconnection_ssl_connect(c->peer_cn, cctx, NULL);
		c->fibers += 2;
		for (int k = 0; k < 2; k++) {
			kconnection* x = k ? c->peer_cn : c->cn;
			kx::spawn_local([c, x](int) { if (kfiber_ssl_handshake(x)) mon::harness_error("handshake"); c->fibers--; return 0; });
		}
	} else {
		c->peer = fd[1];
		c->ready = true;
		if (c->kind == 4) kconnection_ssl_accept(c->cn, sctx);
	}
	c->cn->st.base.tmo = (uint16_t)c->tmo;
	return c;
}
// everything due must have ended; called after enough turns at the present time
static void check_late(Conn* c) {
	if (!any_pending(c) || c->dead) return;
	if (now_ms - c->hi >= period(c)) {
		if (c->left > 0) { c->left--; c->hi = now_ms; return; }
		mon::violation("timeout.late", "%s: still waiting %lld ms after the last activity (%s), the period is %d, %d extra", KINDS[c->kind], (long long)(now_ms - c->hi),
			c->rd.busy ? c->wr.busy ? "read and write" : "read" : "write", period(c), c->tmo);
		c->dead = true;
	}
}
static void timeout_case(int ci) {
	Rng R(mon::hash(mon::seed, ci * 7 + 1));
	static int64_t base_time = 1700000000000ll;
	base_time = std::max(base_time, now_ms) + 1000000000ll + R.below(5000);
	set_clock(base_time);
	turns(3);
	static const int UNITS[] = { 47, 3600, 400000 };
	const int64_t unit = R.chance(4, 5) ? 1 : UNITS[R.below(3)];          // seconds, or periods up to weeks
	if (unit > 1) mon::count("timeout.long_periods");
	T_conn = 1000 * (int)unit * (1 + R.below(4));
	T_rw = 1000 * (int)unit * (1 + R.below(5));
	if (R.chance(1, 6)) { selector_manager_set_timeout(0, T_rw / 1000); T_conn = T_rw; }
	else selector_manager_set_timeout(T_conn / 1000, T_rw / 1000);
	int n = 1 + R.below(6);
	mon::set_case("timeout seed=%llu case=%d, %d connections, periods %d/%d", (unsigned long long)mon::seed, ci, n, T_conn, T_rw);
	for (int i = 0; i < n; i++) conns.push_back(new_conn(ci * 16 + i, R));
	for (int k = 0; k < 200; k++) {
		bool w = false;
		for (Conn* c : conns) if (c->kind == 2 && !c->ready) { if (c->fibers == 0) c->ready = true; else w = true; }
		if (!w) break;
		turns(1);
		if (k == 199) mon::harness_error("the handshakes did not end");
	}
	for (Conn* c : conns) {
		if (c->kind <= 2 && R.chance(2, 5)) { c->rto = true; KBIT_SET(c->cn->st.base.st_flags, STF_RTIME_OUT); }
	}
	int steps = 10 + R.below(40);
	for (int s = 0; s < steps && !mon::violated(); s++) {
		for (Conn* c : conns) {
			if (c->dead) continue;
			if (c->kind == 3) {
				if (!c->rd.busy && c->timeouts == 0) {
					op_begin(c, &c->rd);
					c->fibers++;
					c->cn->st.base.tmo = (uint16_t)c->tmo;
					kx::spawn_local([c](int) {
						int rc = kfiber_net_connect(c->cn, NULL, 0);
						if (rc == 0) { mon::violation("timeout.connect_success", "a connect that nobody answered reported success after %lld ms", (long long)(now_ms - c->lo)); c->dead = true; }
						else ended_without_cause(c, "connect", rc);
						c->rd.busy = false; c->fibers--;
						return 0;
					});
				}
				continue;
			}
			if (c->kind == 4) {
				if (!c->rd.busy) {
					op_begin(c, &c->rd);
					c->fibers++;
					kx::spawn_local([c](int) {
						int rc = kfiber_ssl_handshake(c->cn);
						if (rc == 0) mon::violation("timeout.handshake_success", "a handshake nobody answered succeeded");
						else ended_without_cause(c, "handshake", rc);
						c->dead = true; c->rd.busy = false; c->fibers--;
						return 0;
					});
				}
				continue;
			}
			if (c->peer_closed) continue;
			if (!c->rd.busy && R.chance(1, 2)) { if (R.chance(1, 2)) fiber_read(c); else cb_read(c); }
			if (c->dead) continue;
			if (!c->wr.busy && c->kind != 2 && R.chance(1, 3)) { if (R.chance(1, 2)) fiber_write(c); else cb_write(c); }
			if (c->dead) continue;
			switch (R.below(16)) {
			case 0: case 1: peer_write(c, 1 + R.below(500)); break;
			case 2: if (c->kind != 2) peer_read(c, 1 + R.below(60000)); break;
			case 3: if (c->kind != 2) for (int q = 0; q < 10; q++) peer_read(c, 60000); break;
			case 4: if (R.chance(1, 6)) peer_close(c); break;
			}
		}
		turns(4);
		for (Conn* c : conns) check_late(c);
		// time goes on: a little, or to an edge of somebody's period
		int64_t t = now_ms;
		if (R.chance(1, 2) || conns.empty()) t += (R.below(4) == 0 ? R.below(4000) : R.below(700)) * (R.chance(1, 2) ? unit : 1);
		else {
			Conn* c = conns[R.below((uint32_t)conns.size())];
			int64_t due = (R.chance(1, 2) ? c->lo : c->hi) + (int64_t)period(c) * (R.chance(1, 2) ? 1 : 1 + c->tmo);
			due += (int)R.below(3) - 1;
			if (due > t && due - t < 60000 * unit) t = due; else t += R.below(100);
		}
		if (R.chance(1, 25)) {
			int64_t back = 1000 + R.below(100000);
			set_clock(now_ms - back);
			for (Conn* c : conns) { c->lo -= back; c->hi -= back; c->rd.since -= back; c->wr.since -= back; }
			mon::count("timeout.set_back");
			turns(4);
			for (Conn* c : conns) check_late(c);
			t -= back;
			if (t < now_ms) t = now_ms;
		}
		set_clock(t);
		turns(4);
		for (Conn* c : conns) check_late(c);
	}
	// the remaining operations run into their timeouts
	for (Conn* c : conns) if (c->rto) { c->cn->st.base.st_flags &= ~STF_RTIME_OUT; c->rto = false; }
	int most = 0;
	for (Conn* c : conns) most = std::max(most, c->tmo);
	if (most > 3) mon::count("timeout.hundreds_of_periods");
	for (int k = 0; k < 40 + 6 * most && !mon::violated(); k++) {
		bool p = false;
		for (Conn* c : conns) if (any_pending(c)) p = true;
		if (!p) break;
		set_clock(now_ms + 1000 * unit * R.range(1, 3));
		turns(4);
		for (Conn* c : conns) check_late(c);
	}
	turns(6);
	uint64_t sig = 0;
	for (Conn* c : conns) {
		if (!mon::violated()) MON_CHECK(!any_pending(c) && c->fibers == 0, "timeout.never", "%s: an operation never ended", KINDS[c->kind]);
		if (mon::violated()) return;
		if (c->timeouts && c->dead && c->peer >= 0 && !c->peer_closed) {
			// the peer is told
			char b[4096];
			ssize_t k;
			for (int w = 0; w < 300; w++) {
				while ((k = recvfrom(c->peer, b, sizeof b, MSG_DONTWAIT, NULL, NULL)) > 0) c->taken += k;
				if (k == 0 || errno != EAGAIN) break;
				mon::real_usleep(10000);   // what was written first still comes
				mon::progress();
			}
			MON_CHECK(k == 0 || (k < 0 && errno == ECONNRESET), "timeout.open", "the connection was not shut down after its timeout");
			MON_CHECK(c->taken <= c->sent || c->kind == 4, "timeout.bytes", "the peer got %lld bytes, the writes reported %lld", (long long)c->taken, (long long)c->sent);
		}
		sig = mon::hash(sig, c->sig);
		c->fibers++;
		bool tls = c->kind == 2;
		kx::spawn_local([c, tls](int) {
			if (c->kind == 3 && !ksocket_opened(c->cn->st.fd)) kconnection_real_destroy(c->cn);
			else { if (tls) kfiber_net_shutdown(c->cn); kconnection_real_destroy(c->cn); }
			if (tls) kconnection_real_destroy(c->peer_cn);
			c->fibers--;
			return 0;
		});
		for (int k = 0; k < 50 && c->fibers; k++) turns(1);
		if (c->peer >= 0) close(c->peer);
		delete c;
	}
	turns(2);
	MON_CHECK(get_selector_by_index(0)->count == 0, "timeout.count", "the loop counts %d entries when all have ended", (int)get_selector_by_index(0)->count);
	conns.clear();
	mon::eval();
	mon::cover(sig);
	mon::progress();
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "timeout");
	mon::watchdog(mon::iarg("hang", 20));
	signal(SIGPIPE, SIG_IGN);
	wrap::hooks.epoll_tmo = zero_tmo;
	wrap::vclock_enable(1700000000000ll);
	kasync_init();
	selector_manager_init(1, false);
	kselector_step_init(0);
	kselector_step(0);
	raw_listen = raw_server(64, &raw_addr);
	full_listen = raw_server(0, &full_addr);
	for (int i = 0; i < 4; i++) {
		int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
		connect(fd, (sockaddr*)&full_addr.v4, sizeof full_addr.v4);
		fillers.push_back(fd);
		mon::real_usleep(2000);
	}
	wrap::vclock_disable();
	tls::Cert ec = tls::make_cert("server.test", 0);
	sctx = tls::server_ctx(ec);
	cctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	if (!sctx || !cctx) mon::harness_error("contexts");
	wrap::vclock_enable(1700000000000ll);
	int64_t b0 = 0;
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		timeout_case(i);
		if (i == 2) b0 = wrap::alloc_stat().blocks;
	}
	if (!mon::violated()) { int64_t b1 = wrap::alloc_stat().blocks; if (mon::cases > 20 && b1 - b0 > mon::cases / 10 + 8) mon::violation("leak", "live blocks grew from %lld to %lld", (long long)b0, (long long)b1); }
	mon::finish();
}
