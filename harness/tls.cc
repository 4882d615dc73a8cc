// TLS streams (C10): the sessions of the TCP check over encrypted connections, directly or
// through a relay that cuts the bytes into pieces, delays, records and damages them.
// WRAP: SSL_set_fd
#define PFX "tls."
#include "stream.h"
#include "tlsutil.h"
#include <sys/ioctl.h>
#include <fcntl.h>
#include <deque>
#include <mutex>
#include <algorithm>
using namespace tls;
extern "C" int __wrap_SSL_set_fd(SSL* s, int fd) { int r = __real_SSL_set_fd(s, fd); blocks(s); return r; }

static Cert ca, cert_ec, cert_rsa, other_ca;
static SSL_CTX *sctx[4], *cctx[4];
static const char* VERS[] = { "TLSv1.2", "TLSv1.3", "TLSv1.2 TLSv1.3", "TLSv1.2" };
static void make_contexts() {
	ca = make_cert("test ca", 0, NULL, true);
	other_ca = make_cert("other ca", 0, NULL, true);
	cert_ec = make_cert("server.test", 0, &ca);
	cert_rsa = make_cert("rsa.test", 1, &ca);
	std::string caf = tmpdir() + "/ca.pem", oca = tmpdir() + "/other.pem";
	write_file(caf, ca.cert_pem);
	write_file(oca, other_ca.cert_pem);
	for (int i = 0; i < 4; i++) {
		sctx[i] = server_ctx(i == 3 ? cert_rsa : cert_ec, VERS[i]);
		cctx[i] = kgl_ssl_ctx_new_client(NULL, i < 2 ? caf.c_str() : NULL, NULL);
		if (!cctx[i]) mon::harness_error("client context");
	}
	if (!kgl_ssl_ctx_set_cipher_list(sctx[3], "AES128-SHA:AES256-SHA:ECDHE-RSA-AES128-SHA")) mon::harness_error("ciphers");
}
struct TSession : Session {
	int ver;
	Relay* relay = NULL;
	bool damage = false;
	volatile int hs[2] = { 9, 9 };
	volatile int first_end[2] = { 99, 99 };
	uint64_t key;
	sockaddr_i* raw_addr = NULL;
};
static void tls_hang_info(char* b, size_t n) {
	hang_info(b, n);
	size_t k = strlen(b);
	for (Session* x : live) if (x->done < 2) {
		TSession* s = (TSession*)x;
		k += snprintf(b + k, k < n ? n - k : 0, " {#%d v%d hs %d %d first %d %d", s->id, s->ver, s->hs[0], s->hs[1], s->first_end[0], s->first_end[1]);
		if (s->relay) k += snprintf(b + k, k < n ? n - k : 0, " relay in %lld %lld out %lld %lld ended %d", (long long)s->relay->in[0], (long long)s->relay->in[1], (long long)s->relay->out[0], (long long)s->relay->out[1], s->relay->why);
		for (int i = 0; i < 2; i++) if (s->e[i].cn && s->e[i].cn->st.ssl) {
			int a = 0, b2 = 0;
			ioctl(s->e[i].cn->st.fd, FIONREAD, &a); ioctl(s->e[i].cn->st.fd, TIOCOUTQ, &b2);
			k += snprintf(b + k, k < n ? n - k : 0, " ssl %p bio in %llu out %llu inq %d outq %d", s->e[i].cn->st.ssl->ssl, (unsigned long long)BIO_number_read(SSL_get_rbio(s->e[i].cn->st.ssl->ssl)), (unsigned long long)BIO_number_written(SSL_get_wbio(s->e[i].cn->st.ssl->ssl)), a, b2);
		}
		if (k >= n) return;
	}
}
// What failed on another connection of this thread may have left its trace in the error queue.
static void old_errors(End* e) {
	if (e->r.chance(1, 16)) { ERR_raise(ERR_LIB_SSL, SSL_R_PROTOCOL_IS_SHUTDOWN); mon::count("tls.old_errors"); }
}
static int tmo_and_errors(int ep, int tmo) {
	if (xr() % 2 == 0) { ERR_raise(ERR_LIB_SSL, SSL_R_PROTOCOL_IS_SHUTDOWN); mon::count("tls.old_errors"); }
	return kx::cap_tmo(ep, tmo);
}
static int do_handshake(kconnection* cn, Rng& r) {
	if (r.chance(1, 4)) ERR_raise(ERR_LIB_SSL, SSL_R_PROTOCOL_IS_SHUTDOWN);
	if (r.chance(2, 3)) return kfiber_ssl_handshake(cn);
	// the callback interface, on the loop's main fiber
	struct H { volatile int res = 77, calls = 0; } h;
	kselector* sel = cn->st.base.selector;
	kx::post(sel, [cn, &h] {
		kconnection_ssl_handshake(cn, [](KOPAQUE, void* arg, int got) -> kev_result { H* h = (H*)arg; h->calls++; h->res = got; return kev_ok; }, &h);
	});
	while (h.res == 77) kfiber_msleep(1);
	MON_CHECK(h.calls == 1, "tls.handshake_calls", "a handshake called back %d times", h.calls);
	mon::count("tls.cb_handshakes");
	return h.res;
}
static kserver* early_port;
static void server_side(kconnection* cn, uint64_t) {
	Rng r = kx::rng_for(77, (uint64_t)cn);
	if (cn->server != early_port && r.chance(1, 2)) small_buffers(cn->st.fd, r);
	MON_CHECK(kconnection_is_ssl_not_handshake(cn), "tls.no_ssl", "a connection of an encrypted server has no pending handshake");
	int hs = do_handshake(cn, r);
	if (hs) ERR_print_errors_fp(stderr);
	if (hs != 0) { fprintf(stderr, "HS fail errno %d state %s\n", errno, SSL_state_string_long(cn->st.ssl->ssl)); ERR_print_errors_fp(stderr); } MON_CHECK(hs == 0, "tls.handshake", "the server's handshake failed (%d)", hs);
	if (hs != 0) { kfiber_net_close(cn); return; }
	uint64_t id = 0;
	int len = sizeof id;
	if (!kfiber_net_read_full(cn, (char*)&id, &len)) { mon::violation("tls.hello", "the first bytes of a connection could not be read (left %d)", len); kfiber_net_close(cn); return; }
	Session* s = NULL;
	{ SpinGuard g(tab_lk); if (tab.count(id)) { s = tab[id]; tab.erase(id); } }
	if (!s) { mon::violation("tls.hello", "the first bytes of a connection are wrong"); kfiber_net_close(cn); return; }
	if (r.chance(1, 3)) KBIT_SET(cn->st.base.st_flags, STF_RTIME_OUT);
	bind_end(&s->e[1], cn);
	run_end(&s->e[1]);
}
static void client_side(TSession* s, bool small) {
	End* e = &s->e[0];
	kconnection* cn = kconnection_new(s->raw_addr ? s->raw_addr : s->relay ? &s->relay->addr : &srv[s->ver]->addr);
	int rc = kfiber_net_connect(cn, NULL, 0);
	MON_CHECK(rc == 0, "tls.connect", "connecting to an open server failed (%d)", rc);
	if (rc != 0) { kfiber_net_close(cn); mon_fetch_add32(&s->done, 2); return; }
	if (small) small_buffers(cn->st.fd, e->r);
	if (!kconnection_ssl_connect(cn, cctx[s->raw_addr ? 3 : s->ver], e->r.chance(1, 2) ? "server.test" : NULL)) mon::harness_error("ssl_connect");
	int hs = do_handshake(cn, e->r);
	MON_CHECK(hs == 0, "tls.handshake", "the client's handshake failed (%d)", hs);
	if (hs != 0) { kfiber_net_close(cn); mon_fetch_add32(&s->done, 2); return; }
	if (e->r.chance(1, 3)) KBIT_SET(cn->st.base.st_flags, STF_RTIME_OUT);     // only matters to reads that are timed
	bind_end(e, cn);
	uint64_t id = s->key;
	int len = sizeof id;
	if (!kfiber_net_write_full(cn, (char*)&id, &len)) mon::violation("tls.hello", "could not write to a fresh connection");
	if (s->closing == 2) while (!s->e[1].bound && !mon::violated()) kfiber_msleep(1);
	run_end(e);
}
static void setup(TSession* s, int id, Rng& R) {
	s->id = id;
	s->ver = (int)R.below(4);
	s->kind = R.chance(1, 2) ? 3 : 4;
	s->closing = R.chance(1, 6) ? 2 : (int)R.below(2);
	s->wait_peer = true;
	s->key = mon::hash(mon::seed, 5000000 + id);
	int closer = (int)R.below(2);
	for (int k = 0; k < 2; k++) {
		End& e = s->e[k];
		e.s = s; e.side = k;
		e.out_id = s->id * 4 + k; e.in_id = s->id * 4 + !k;
		e.closer = closer == k;
		e.slow = R.chance(1, 3);
		e.r = Rng(mon::hash(mon::hash(mon::seed, s->id), k));
		e.out_total = R.chance(1, 8) ? 0 : R.chance(1, 4) ? R.below(20) : R.chance(1, 4) ? R.below(150000) : R.below(20000);
	}
	// a client that closes has to have read something: tickets it left unread turn its close into a reset
	if (closer == 0 && !s->e[1].out_total) s->e[1].out_total = 1 + R.below(3);
	s->e[0].in_total = s->e[1].out_total;
	s->e[1].in_total = s->e[0].out_total;
	s->abort_at = R.below((uint32_t)(s->e[0].out_total + s->e[0].in_total + 1));
	if (s->closing == 2) s->e[0].closer = s->e[1].closer = false;
	// unread tickets would turn a close into a reset: then the end comes after the data
	if (s->e[0].in_total && R.chance(1, 2)) s->wait_peer = false;
	if (s->kind == 4) {
		s->relay = new Relay;
		s->relay->r = Rng(mon::hash(s->key, 9));
		s->relay->frag = (int)R.below(3);
		if (s->relay->frag == 2) for (int k = 0; k < 2; k++) s->e[k].out_total = std::min<int64_t>(s->e[k].out_total, 6000);
		s->e[0].in_total = s->e[1].out_total;
		s->e[1].in_total = s->e[0].out_total;
		s->relay->to = srv[s->ver]->addr;
	}
}
static void mode_tls() {
	before_op = old_errors;
	wrap::hooks.epoll_tmo = tmo_and_errors;
	mon::on_hang = tls_hang_info;
	kx::loops_start(mon::iarg("loops", 3));
	make_contexts();
	on_conn = server_side;
	// kfiber_net_shutdown writes: it is for an end whose own writes are over
	abort_fn = [](kconnection* cn) { selectable_shutdown(&cn->st); };
	for (int i = 0; i < 4; i++) srv[i] = open_server(kx::loop4(), kgl_new_ssl_ctx(sctx[i]));
	Rng R(mon::seed * 41 + 5);
	int conc = mon::iarg("conc", 12);
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("TLS sessions %d..%d", base, base + n - 1);
		std::vector<TSession*> ss;
		for (int i = 0; i < n; i++) {
			TSession* s = new TSession;
			setup(s, base + i, R);
			ss.push_back(s);
			live.push_back(s);
			{ SpinGuard g(tab_lk); tab[s->key] = s; }
			if (s->relay) relay_start(s->relay);
		}
		for (TSession* s : ss) {
			bool small = R.chance(1, 2);
			kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [s, small](int) { client_side(s, small); return 0; });
		}
		for (TSession* s : ss) {
			kx::wait_done(&s->done, 2);
			if (s->closing != 2) for (int k = 0; k < 2; k++)
				MON_CHECK(s->e[k].sent == s->e[k].out_total && s->e[k].got == s->e[k].in_total, "tls.total", "side %d sent %lld of %lld and received %lld of %lld", k,
					(long long)s->e[k].sent, (long long)s->e[k].out_total, (long long)s->e[k].got, (long long)s->e[k].in_total);
			else for (int k = 0; k < 2; k++)
				// (a write that fails half-way may have sent whole records)
				MON_CHECK(s->e[k].got <= s->e[!k].offered, "tls.more_than_sent", "side %d received %lld bytes, the peer's writes were given %lld", k, (long long)s->e[k].got, (long long)s->e[!k].offered);
			if (s->relay) {
				relay_join(s->relay);
				for (int d = 0; d < 2; d++) {
					MON_CHECK(is_records(s->relay->wire[d]), "tls.records", "the bytes on the wire are not TLS records");
					int64_t c = find_clear(s->relay->wire[d], s->e[d].out_id, s->e[d].sent);
					MON_CHECK(c < 0, "tls.clear", "bytes at %lld of the stream crossed the wire in clear", (long long)c);
					mon::count("tls.wire_bytes", s->relay->wire[d].size());
				}
				mon::count("tls.relayed");
				delete s->relay;
			}
			mon::count("tls.sessions");
			mon::count(s->ver == 1 ? "tls.v13" : s->ver == 2 ? "tls.any" : "tls.v12");
			mon::eval();
		}
		live.clear();
		for (TSession* s : ss) delete s;
		mon::progress();
	}
}

// ---- a peer made of plain OpenSSL on a socket of its own --------------------------------
static SSL_CTX* early_srv;
static double now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1e3 + t.tv_nsec / 1e6; }
struct Raw {
	Session* s;
	bool client;                 // the raw peer is the client
	int ver;
	bool early = false;          // write early data (client)
	int end;                     // 0 close_notify and close 1 plain close 2 close_notify, wait for the peer's, close
	int lfd = -1;
	sockaddr_i addr;
	SSL_SESSION* resume = NULL;
	SSL_CTX* ctx = NULL;
	Rng r;
	uint64_t key;
	volatile int reused = 0, early_ok = 0, failed = 0, done = 0;
	int64_t early_bytes = 0;
	bool slow = false;
	pthread_t th;
};
static std::mutex sess_lk;
static std::vector<SSL_SESSION*> sessions;
static int new_session_cb(SSL*, SSL_SESSION* x) {
	std::lock_guard<std::mutex> g(sess_lk);
	if (sessions.size() > 60) return 0;
	sessions.push_back(x);
	return 1;
}
static void raw_wait(SSL* ssl, int rc, int fd, int ms = 1000) {
	int err = SSL_get_error(ssl, rc);
	struct pollfd p = { fd, (short)(err == SSL_ERROR_WANT_WRITE ? POLLOUT : POLLIN), 0 };
	poll(&p, 1, ms);
}
static bool again(SSL* ssl, int rc) { int e = SSL_get_error(ssl, rc); return e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE; }
// time between the records of one flight (a hello and its early data are written at once)
static long late_io(BIO*, int oper, const char*, size_t, int, long, int ret, size_t*) {
	if (oper == BIO_CB_WRITE && xr() % 3 == 0) mon::real_usleep(xr() % 3000);
	return ret;
}
static void* raw_main(void* arg) {
	Raw* w = (Raw*)arg;
	End* e = &w->s->e[w->client ? 0 : 1];
	Rng& r = w->r;
	int fd;
	if (w->client) {
		fd = socket(AF_INET, SOCK_STREAM, 0);
		if (connect(fd, (sockaddr*)&w->addr.v4, sizeof w->addr.v4)) { w->failed = 1; close(fd); w->done = 1; return NULL; }
	} else {
		struct pollfd p = { w->lfd, POLLIN, 0 };
		if (poll(&p, 1, 15000) <= 0) { w->failed = 2; w->done = 1; return NULL; }
		fd = accept(w->lfd, NULL, NULL);
	}
	int one = 1;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	fcntl(fd, F_SETFL, O_NONBLOCK);
	SSL* ssl = SSL_new(w->ctx);
	SSL_set_fd(ssl, fd);
	SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
	if (r.chance(1, 3)) SSL_set_max_send_fragment(ssl, 512 + r.below(3000));
	std::string out;              // the key, then the stream
	if (w->client) { out.append((char*)&w->key, 8); }
	size_t base = out.size();
	out.resize(base + e->out_total);
	give(e, &out[base], 0, e->out_total);
	int64_t pos = 0;
	int rc;
	ERR_clear_error();
	if (w->client) {
		SSL_set_connect_state(ssl);
		if (w->resume) { SSL_set_session(ssl, w->resume); SSL_SESSION_free(w->resume); }
		if (w->early && r.chance(1, 2)) BIO_set_callback_ex(SSL_get_wbio(ssl), late_io);
		if (w->early && w->resume && SSL_SESSION_get_max_early_data(w->resume) > 0) {
			int64_t want = std::min<int64_t>(out.size(), 1 + r.below(r.chance(1, 2) ? 20 : 12000));
			size_t n = 0;
			while (pos < want) {
				size_t k = 0;
				if (!n) n = std::min<int64_t>(want - pos, 1 + r.below(3000));
				ERR_clear_error();
				rc = SSL_write_early_data(ssl, out.data() + pos, n, &k);
				if (rc == 1) { pos += k; n = 0; if (r.chance(1, 2)) mon::real_usleep(r.below(3000)); }
				else if (again(ssl, rc)) { fprintf(stderr, "early again %d\n", SSL_get_error(ssl, rc)); raw_wait(ssl, rc, fd); }
				else { w->failed = 3; fprintf(stderr, "raw early error %d errno %d pos %lld n %zu state %s\n", SSL_get_error(ssl, rc), errno, (long long)pos, n, SSL_state_string_long(ssl)); ERR_print_errors_fp(stderr); break; }
			}
			w->early_bytes = pos;
			if (r.chance(1, 2)) mon::real_usleep(r.below(5000));
		}
	} else SSL_set_accept_state(ssl);
	double t0 = now_ms();
	while (!w->failed && (rc = SSL_do_handshake(ssl)) != 1) {
		if (!again(ssl, rc) || now_ms() - t0 > 15000) { w->failed = 4; fprintf(stderr, "raw handshake error %d reused %d early %d\n", SSL_get_error(ssl, rc), SSL_session_reused(ssl), (int)w->early_bytes); ERR_print_errors_fp(stderr); break; }
		raw_wait(ssl, rc, fd);
	}
	if (!w->failed) {
		w->reused = SSL_session_reused(ssl);
		if (w->early_bytes) {
			w->early_ok = SSL_get_early_data_status(ssl) == SSL_EARLY_DATA_ACCEPTED;
			if (!w->early_ok) pos = 0;     // refused: said again
		}
	}
	uint64_t key_in = 0;
	size_t key_got = w->client ? 8 : 0;
	std::vector<char> buf(9000);
	bool eof = false;
	int chunk = 0;
	while (!w->failed && (pos < (int64_t)out.size() || e->got < e->in_total || key_got < 8)) {
		bool moved = false;
		if (pos < (int64_t)out.size()) {
			if (!chunk) chunk = (int)std::min<int64_t>(out.size() - pos, 1 + r.below(6000));
			ERR_clear_error();
			rc = SSL_write(ssl, out.data() + pos, chunk);     // a retry is the same call
			if (rc > 0) { chunk = 0; pos += rc; moved = true; e->sent = std::max<int64_t>(0, pos - (int64_t)base); }
			else if (!again(ssl, rc)) { w->failed = 5; break; }
		}
		if (key_got < 8 || e->got < e->in_total) {
			if (w->slow && r.chance(1, 4)) mon::real_usleep(r.below(20000));
			size_t n = key_got < 8 ? 8 - key_got : std::min<int64_t>(1 + r.below(8000), e->in_total - e->got);
			ERR_clear_error();
			rc = SSL_read(ssl, buf.data(), (int)n);
			if (rc > 0) {
				moved = true;
				if (key_got < 8) { memcpy((char*)&key_in + key_got, buf.data(), rc); key_got += rc; }
				else note_got(e, buf.data(), rc, "the raw peer");
			} else if (!again(ssl, rc)) { w->failed = SSL_get_error(ssl, rc) == SSL_ERROR_ZERO_RETURN ? 6 : 7; fprintf(stderr, "raw read error end %d early %d closer %d ver %d;", w->end, (int)w->early_bytes, w->s->e[w->client ? 1 : 0].closer, w->ver), fprintf(stderr, "raw read error %d errno %d, pos %lld of %zu got %lld of %lld\n", SSL_get_error(ssl, rc), errno, (long long)pos, out.size(), (long long)e->got, (long long)e->in_total); ERR_print_errors_fp(stderr); break; }
		}
		if (SSL_version(ssl) == TLS1_3_VERSION && SSL_is_init_finished(ssl) && !chunk && !w->s->e[w->client ? 1 : 0].closer && r.chance(1, 10)) { // (OpenSSL itself fails when an answer to a request meets a write that waits half-way)
			SSL_key_update(ssl, w->s->e[w->client ? 1 : 0].wdone && r.chance(1, 2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); mon::count("tls.key_updates"); }
		if (!moved) { struct pollfd p = { fd, (short)(POLLIN | (pos < (int64_t)out.size() && SSL_want_write(ssl) ? POLLOUT : 0)), 0 }; poll(&p, 1, 20); if (now_ms() - t0 > 25000) { w->failed = 8; break; } }
		else if (r.chance(1, 10)) mon::real_usleep(r.below(500));
	}
	if (!w->failed && !w->client && key_in != w->key) mon::violation("tls.hello", "the raw server received other first bytes");
	ERR_clear_error();
	if (!w->failed) {
		while (SSL_in_init(ssl) && (rc = SSL_do_handshake(ssl)) != 1 && again(ssl, rc)) raw_wait(ssl, rc, fd, 100);
		// (a close notify the closing side has not read resets the connection when it closes: let it say goodbye first)
		bool after = w->end == 2 && w->s->e[w->client ? 1 : 0].closer;
		if (w->end != 1 && !after) {
			while ((rc = SSL_shutdown(ssl)) < 0 && again(ssl, rc)) raw_wait(ssl, rc, fd);
			// (OpenSSL refuses to say goodbye over a message of its own that waits half-way: then it is a truncation)
			if (rc < 0) { fprintf(stderr, "raw shutdown error %d in init %d\n", SSL_get_error(ssl, rc), SSL_in_init(ssl)); ERR_print_errors_fp(stderr); w->end = 1; w->s->closing = 3; mon::count("tls.raw_no_goodbye"); }
		}
		if (w->end == 2) {
			// the peer's own end of stream
			for (int k = 0; k < 600; k++) {
				rc = SSL_read(ssl, buf.data(), 100);
				if (rc > 0) { mon::violation("tls.too_many", "the raw peer received %d bytes after the stream", rc); break; }
				if (!again(ssl, rc)) { eof = SSL_get_error(ssl, rc) == SSL_ERROR_ZERO_RETURN; break; }
				raw_wait(ssl, rc, fd, 20);
			}
			if (!eof) { w->failed = 9; { char hb[2000] = ""; tls_hang_info(hb, sizeof hb); End& q = w->s->e[w->client ? 1 : 0]; int a = -1; if (q.cn) ioctl(q.cn->st.fd, FIONREAD, &a);
			fprintf(stderr, "no end #%d client %d ver %d %d: %d errno %d; other side: cn %d closer %d w%d r%d inq %d in_early %d: %s\n", w->s->id, w->client, ((TSession*)w->s)->ver, SSL_version(ssl), SSL_get_error(ssl, rc), errno, !!q.cn, q.closer, q.wdone.load(), q.rdone.load(), a, q.cn ? q.cn->st.ssl->in_early : -1, hb); } ERR_print_errors_fp(stderr); }
			if (after) SSL_shutdown(ssl);
		} else {
			// everything said has to arrive: the receive side must be empty when the socket is closed
			shutdown(fd, SHUT_WR);
			double t1 = now_ms();
			while (now_ms() - t1 < 5000) {
				struct pollfd p = { fd, POLLIN, 0 };
				if (poll(&p, 1, 100) > 0 && recvfrom(fd, buf.data(), buf.size(), 0, NULL, NULL) <= 0) break;
			}
		}
	}
	SSL_set_shutdown(ssl, SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN);   // its tickets stay good
	SSL_free(ssl);
	ERR_clear_error();
	close(fd);
	if (w->lfd >= 0) close(w->lfd);
	w->done = 1;
	mon::progress();
	return NULL;
}
static std::map<Session*, Raw*> raws;
static void mode_raw() {
	before_op = old_errors;
	wrap::hooks.epoll_tmo = tmo_and_errors;
	mon::on_hang = tls_hang_info;
	kx::loops_start(mon::iarg("loops", 3));
	make_contexts();
	on_conn = server_side;
	early_srv = server_ctx(cert_ec, "TLSv1.3");
	kgl_ssl_ctx_set_early_data(early_srv, true);
	SSL_CTX_set_options(early_srv, SSL_OP_NO_ANTI_REPLAY);
	for (int i = 0; i < 4; i++) srv[i] = open_server(kx::loop4(), kgl_new_ssl_ctx(sctx[i]));
	early_port = open_server(kx::loop4(), kgl_new_ssl_ctx(early_srv));
	SSL_CTX* raw_c = SSL_CTX_new(TLS_client_method());
	SSL_CTX_set_session_cache_mode(raw_c, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL);
	SSL_CTX_sess_set_new_cb(raw_c, new_session_cb);
	SSL_CTX* raw_s = SSL_CTX_new(TLS_server_method());
	SSL_CTX_use_certificate(raw_s, cert_ec.x);
	SSL_CTX_use_PrivateKey(raw_s, cert_ec.key);
	SSL_CTX_set1_groups_list(raw_s, "P-384:X25519");
	SSL_CTX* raw_s2 = SSL_CTX_new(TLS_server_method());
	SSL_CTX_use_certificate(raw_s2, cert_rsa.x);
	SSL_CTX_use_PrivateKey(raw_s2, cert_rsa.key);
	SSL_CTX_set1_groups_list(raw_s2, "P-384");     // makes a 1.3 client begin again
	SSL_CTX_set_num_tickets(raw_s2, 12);
	Rng R(mon::seed * 97 + 3);
	int conc = mon::iarg("conc", 10);
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("raw TLS sessions %d..%d", base, base + n - 1);
		std::vector<TSession*> ss;
		std::vector<Raw*> rs;
		for (int i = 0; i < n; i++) {
			TSession* s = new TSession;
			s->kind = 3;
			setup(s, base + i, R);
			if (s->relay) { delete s->relay; s->relay = NULL; s->kind = 3; }
			Raw* w = new Raw;
			w->s = s;
			w->client = R.chance(2, 3);
			w->end = (int)R.below(3);
#ifdef ENABLE_KSSL_BIO
			// (a half-closed connection takes no more writes, and here the tickets are written before the handshake is reported)
			if (w->client) w->end = 2;
#endif
			w->r = Rng(mon::hash(s->key, 31));
			w->key = s->key;
			w->slow = R.chance(1, 4);
			w->ver = s->ver;
			s->closing = w->end == 1 ? 3 : 0;     // 3: truncated by the raw side
			s->wait_peer = false;
			s->e[0].closer = s->e[1].closer = false;
			if (w->end == 2 && s->e[w->client ? 1 : 0].in_total) s->e[w->client ? 1 : 0].closer = R.chance(1, 2);   // (it has to read past the tickets)
			if (w->client) {
				w->ctx = raw_c;
				if (R.chance(2, 3)) {
					w->addr = early_port->addr;
					w->early = true;
					s->ver = 4;
					// (OpenSSL cannot go on with the handshake while an early answer waits half-way)
					s->e[1].out_total = s->e[0].in_total = s->e[1].out_total % 4000;
					if (s->e[0].out_total == 0 && R.chance(1, 2)) s->e[0].out_total = s->e[1].in_total = 20000;
					if (R.chance(1, 3)) { s->e[0].out_total = s->e[1].in_total = R.below(4); if (R.chance(1, 2)) s->e[1].out_total = s->e[0].in_total = R.below(4); }   // everything as early data
				} else w->addr = srv[s->ver]->addr;
				{ std::lock_guard<std::mutex> g(sess_lk); if (!sessions.empty() && R.chance(3, 4)) { w->resume = sessions.back(); sessions.pop_back(); } }
				SpinGuard g(tab_lk);
				tab[s->key] = s;
			} else {
				w->ctx = R.chance(1, 2) ? raw_s : raw_s2;
				s->ver = 2;
				Relay tmp;
				relay_listen(&tmp);
				w->lfd = tmp.lfd;
				w->addr = tmp.addr;
			}
			raws[s] = w;
			ss.push_back(s);
			rs.push_back(w);
			live.push_back(s);
			pthread_create(&w->th, NULL, raw_main, w);
			if (!w->client) {
				bool small = R.chance(1, 2);
				s->raw_addr = &w->addr;
				kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [s, small](int) { client_side(s, small); return 0; });
			}
		}
		for (int i = 0; i < n; i++) {
			TSession* s = ss[i];
			Raw* w = rs[i];
			End& k = s->e[w->client ? 1 : 0];
			kx::wait_done(&s->done, 1);
			pthread_join(w->th, NULL);
			MON_CHECK(!w->failed, "tls.raw_peer", "the raw %s failed at step %d (early %d, resumed %d, end %d)", w->client ? "client" : "server", w->failed, (int)w->early_bytes, w->reused, w->end);
			MON_CHECK(k.sent == k.out_total && k.got == k.in_total, "tls.total", "with a raw %s: sent %lld of %lld and received %lld of %lld", w->client ? "client" : "server",
				(long long)k.sent, (long long)k.out_total, (long long)k.got, (long long)k.in_total);
			mon::count(w->client ? "tls.raw_clients" : "tls.raw_servers");
			if (w->reused) mon::count("tls.resumed");
			if (w->early_ok) { mon::count("tls.early"); mon::count("tls.early_bytes", w->early_bytes); }
			if (w->end == 1) mon::count("tls.truncated");
			mon::eval();
			raws.erase(s);
			delete w;
		}
		live.clear();
		for (TSession* s : ss) delete s;
		mon::progress();
	}
}
// ---- connections that must not succeed, or not completely ------------------------------
// The relay cuts or damages the connection, or the two ends do not fit together.
struct FailCase {
	int kind;
	kconnection* volatile cn[2] = { NULL, NULL };
	volatile int hs[2] = { 99, 99 };
	volatile int64_t got[2] = { 0, 0 };
	volatile int end[2] = { 99, 99 };
	volatile int done = 0;
	Relay* relay = NULL;
	sockaddr_i addr;
	SSL_CTX* cctx;
	uint32_t id;
	int64_t total;
	Rng r;
};
static SpinLock fail_lk;
static std::map<uint16_t, FailCase*> fail_by_port;   // the port the server sees
static std::deque<FailCase*> fail_cur;
static const char* FAILS[] = { "cut", "flip", "plain text to a TLS port", "untrusted server", "no common version", "a mute peer that closes", "TLS client at a plain server" };
static void fail_io(FailCase* f, int side, kconnection* cn) {
	// each side writes its pattern and reads the other's to the end
	kfiber* wf = NULL;
	kx::spawn_local([f, side, cn](int) {
		int64_t pos = 0;
		while (pos < f->total) {
			char b[3000];
			int n = (int)std::min<int64_t>(sizeof b, f->total - pos);
			fill(b, f->id + side, pos, n);
			int k = kfiber_net_write(cn, b, n);
			if (k <= 0) break;
			pos += k;
		}
		return 0;
	}, NULL, 0, 0, &wf);
	for (;;) {
		char b[2000];
		int want = (int)std::min<int64_t>(sizeof b, f->total - f->got[side]);
		if (want == 0) { f->end[side] = 100; break; }
		int k = kfiber_net_read(cn, b, want);
		if (k <= 0) { f->end[side] = k; break; }
		ssize_t d = differs(b, f->id + !side, f->got[side], k);
		MON_CHECK(d < 0, "tls.damaged", "%s: byte %lld of the plaintext is not what was sent", FAILS[f->kind], (long long)(f->got[side] + d));
		f->got[side] += k;
	}
	if (f->end[side] != 100) selectable_shutdown(&cn->st);
	int rv;
	kfiber_join(wf, &rv);
}
static void fail_server(kconnection* cn, uint64_t) {
	FailCase* f = NULL;
	{ SpinGuard g(fail_lk); if (!fail_cur.empty()) f = fail_cur.front(); }
	if (!f) { kfiber_net_close(cn); return; }
	if (cn->st.ssl) {
		f->cn[1] = cn;
		f->hs[1] = do_handshake(cn, f->r);
		if (f->hs[1] == 0) fail_io(f, 1, cn);
	} else {
		char b[64];
		int k = kfiber_net_read(cn, b, sizeof b);
		if (k > 0) kfiber_net_write(cn, "HTTP/1.0 400 no\r\n\r\n", 19);
		f->hs[1] = -1;
	}
	f->cn[1] = NULL;
	if (f->r.chance(1, 2)) kfiber_net_close(cn); else kconnection_destroy(cn);
	kx::signal_done(&f->done);
}
static void mode_fail() {
	mon::on_hang = [](char* b, size_t n) {
		SpinGuard g(fail_lk);
		for (FailCase* f : fail_cur) snprintf(b, n, "[%s: handshakes %d %d, received %lld %lld of %lld, ends %d %d, done %d]", FAILS[f->kind], f->hs[0], f->hs[1], (long long)f->got[0], (long long)f->got[1], (long long)f->total, f->end[0], f->end[1], f->done);
		size_t k = strlen(b);
		for (FailCase* f : fail_cur) for (int i = 0; i < 2; i++) if (f->cn[i] && f->cn[i]->st.ssl) {
			SSL* s = f->cn[i]->st.ssl->ssl;
			k += snprintf(b + k, k < n ? n - k : 0, "<end %d: ver %d flags %x pending %d want %d shutdown %d bio %d %d state %s deaf %d>", i, SSL_version(s), f->cn[i]->st.base.st_flags, SSL_pending(s), SSL_want(s), SSL_get_shutdown(s), (int)BIO_pending(SSL_get_rbio(s)), (int)BIO_pending(SSL_get_wbio(s)), SSL_state_string_long(s), f->relay ? f->relay->deaf_dir : -2);
		}
	};
	kx::loops_start(mon::iarg("loops", 2));
	make_contexts();
	on_conn = fail_server;
	for (int i = 0; i < 3; i++) srv[i] = open_server(kx::loop4(), kgl_new_ssl_ctx(sctx[i]));
	srv[3] = open_server(kx::loop4());
	SSL_CTX* distrust = kgl_ssl_ctx_new_client(NULL, (tmpdir() + "/other.pem").c_str(), NULL);
	SSL_CTX* only12 = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	kgl_ssl_ctx_set_protocols(only12, "TLSv1.2");
	Rng R(mon::seed * 53 + 11);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		FailCase* f = new FailCase;
		f->kind = R.chance(2, 3) ? (int)R.below(2) : 2 + (int)R.below(5);
		f->r = Rng(mon::hash(mon::seed, 7000000 + i));
		f->id = 100000 + i * 2;
		f->total = R.chance(1, 3) ? R.below(100) + 1 : R.below(60000) + 1;
		int ver = (int)R.below(3);
		f->addr = srv[ver]->addr;
		f->cctx = cctx[ver];
		mon::set_case("failing TLS %d: %s", i, FAILS[f->kind]);
		int need = 2;
		if (f->kind == 3) f->cctx = distrust;
		if (f->kind == 4) { f->cctx = only12; f->addr = srv[1]->addr; }
		if (f->kind == 6) f->addr = srv[3]->addr;
		if (f->kind < 2) {
			f->relay = new Relay;
			f->relay->r = Rng(mon::hash(mon::seed, 900000 + i));
			f->relay->frag = (int)R.below(2);
			f->relay->to = f->addr;
			f->relay->keep = false;
			int d = (int)R.below(2);
			int64_t at = R.chance(1, 2) ? R.below(4000) : R.below((uint32_t)(f->total + 3000));
			(f->kind == 0 ? f->relay->cut_at : f->relay->flip_at)[d] = at;
			f->relay->reset_on_cut = R.chance(1, 3);
			f->relay->deaf = f->kind == 1 && R.chance(1, 2);
		}
		{ SpinGuard g(fail_lk); fail_cur.push_back(f); }
		if (f->relay) { relay_start(f->relay); f->addr = f->relay->addr; }
		if (f->kind == 2 || f->kind == 5) {
			// plain bytes, or nothing, from a socket of our own
			need = 1;
			int fd = socket(AF_INET, SOCK_STREAM, 0);
			if (connect(fd, (sockaddr*)&f->addr.v4, sizeof f->addr.v4)) mon::harness_error("connect");
			char junk[600];
			int n = f->kind == 5 ? 0 : 1 + (int)R.below(sizeof junk);
			for (int k = 0; k < n; k++) junk[k] = (char)R.below(256);
			if (n && R.chance(1, 2)) { memcpy(junk, "GET / HTTP/1.1\r\nHost: x\r\n\r\n", std::min(n, 27)); }
			else if (n > 5 && R.chance(1, 2)) { junk[0] = 22; junk[1] = 3; junk[2] = 1; junk[3] = (char)R.below(3); }
			if (n) sendto(fd, junk, n, MSG_NOSIGNAL, NULL, 0);
			mon::real_usleep(R.below(3000));
			if (R.chance(1, 3)) { struct linger lg = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); }
			if (R.chance(1, 2)) { shutdown(fd, SHUT_WR); mon::real_usleep(R.below(3000)); }
			close(fd);
		} else kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [f](int) {
			kconnection* cn = kconnection_new(&f->addr);
			int rc = kfiber_net_connect(cn, NULL, 0);
			MON_CHECK(rc == 0, "tls.connect", "connecting to an open server failed (%d)", rc);
			if (rc == 0) {
				if (!kconnection_ssl_connect(cn, f->cctx, NULL)) mon::harness_error("ssl_connect");
				f->cn[0] = cn;
				f->hs[0] = do_handshake(cn, f->r);

				if (f->hs[0] == 0) fail_io(f, 0, cn);
			}
			f->cn[0] = NULL;
			kfiber_net_close(cn);
			kx::signal_done(&f->done);
			return 0;
		});
		kx::wait_done(&f->done, need);
		if (f->relay) relay_join(f->relay);
		switch (f->kind) {
		case 0: case 1: {
			bool hit = f->kind == 0 ? f->relay->cut : f->relay->flipped;
			for (int k = 0; k < 2; k++) {
				MON_CHECK(f->got[k] <= f->total, "tls.too_many", "%s: more bytes than sent", FAILS[f->kind]);
				if (f->hs[k] != 0) MON_CHECK(f->got[k] == 0, "tls.after_failure", "data delivered after a failed handshake");
			}
			if (!hit) MON_CHECK(f->hs[0] == 0 && f->hs[1] == 0 && f->got[0] == f->total && f->got[1] == f->total, "tls.intact", "an untouched connection moved %lld and %lld of %lld bytes", (long long)f->got[0], (long long)f->got[1], (long long)f->total);
			mon::count(hit ? (f->kind == 0 ? "tls.cut" : "tls.flipped") : "tls.untouched");
			if (f->relay->deaf && hit) mon::count("tls.flipped_deaf");
			if (hit && f->hs[0] != 0) mon::count("tls.cut_in_handshake");
			delete f->relay;
			break;
		}
		case 2: case 5:
			MON_CHECK(f->hs[1] != 0, "tls.accepted_clear", "%s: the server's handshake succeeded", FAILS[f->kind]);
			mon::count("tls.refused");
			break;
		case 3: case 4:
			MON_CHECK(f->hs[0] < 0, "tls.refused_ok", "%s: the client's handshake returned %d", FAILS[f->kind], f->hs[0]);
			MON_CHECK(f->got[0] == 0 && f->got[1] == 0, "tls.after_failure", "%s: %lld/%lld bytes delivered", FAILS[f->kind], (long long)f->got[0], (long long)f->got[1]);
			if (f->kind == 4) MON_CHECK(f->hs[1] < 0, "tls.refused_ok", "%s: the server's handshake returned %d", FAILS[f->kind], f->hs[1]);
			mon::count("tls.refused");
			break;
		case 6:
			MON_CHECK(f->hs[0] < 0, "tls.refused_ok", "%s: the client's handshake returned %d", FAILS[f->kind], f->hs[0]);
			mon::count("tls.refused");
			break;
		}
		mon::cover(mon::hash(f->kind, mon::hash(f->hs[0], mon::hash(f->hs[1], mon::hash(f->end[0], f->end[1])))));
		{ SpinGuard g(fail_lk); fail_cur.pop_front(); }
		mon::eval();
		mon::progress();
		delete f;
	}
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C10");
	std::string m = mon::arg("mode", "tls");
	signal(SIGPIPE, SIG_IGN);
	mon::watchdog(mon::iarg("hang", 20));
	if (m == "tls") mode_tls();
	else if (m == "tlsraw") mode_raw();
	else if (m == "tlsfail") mode_fail();
	else mon::harness_error("mode %s", m.c_str());
	mon::finish();
}
