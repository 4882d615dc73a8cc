// Full-duplex stream sessions shared by the TCP and TLS harnesses: two ends that write the
// bytes of their pattern with every kind of operation and check every byte they read.
#pragma once
#include "net.h"
using namespace net;
#ifndef PFX
#define PFX "tcp."
#endif
struct Session;
struct End {
	Session* s;
	int side;
	kconnection* cn = NULL;
	kselector* sel = NULL;
	uint32_t out_id, in_id;
	int64_t out_total, in_total;   // bytes to send, bytes the peer sends
	volatile int64_t sent = 0, got = 0;
	volatile int64_t offered = 0;  // the end of what any write was given
	volatile int bound = 0;
	std::atomic<int> wdone{0}, rdone{0};
	bool closer, slow;
	Rng r;
	uint64_t sig = 0;
};
struct Session {
	int id, kind;                 // 0 tcp4 1 tcp6 2 unix pair
	volatile int closing;                  // 0 orderly close 1 orderly with shutdown first 2 abort by shutdown
	int64_t abort_at;
	End e[2];
	volatile int done = 0;
	volatile bool aborted = false;
	bool wait_peer = false;       // the closing side waits until the peer has everything
};
static std::function<void(kconnection*)> abort_fn = [](kconnection* cn) { kfiber_net_shutdown(cn); };
static SpinLock tab_lk;
static std::map<uint64_t, Session*> tab;
static const char* KIND[] = { "tcp4", "tcp6", "unix", "direct", "relayed" };

static void note_sent(End* e, int64_t n) {
	e->sent += n;
	mon::count(PFX "sent_bytes", n);
}
static void give(End* e, char* b, int64_t pos, int64_t n) {
	fill(b, e->out_id, pos, n);
	if (pos + n > e->offered) e->offered = pos + n;
}
// Checks `n` bytes that were read at the current position.
static void note_got(End* e, const char* b, int64_t n, const char* how) {
	ssize_t d = differs(b, e->in_id, e->got, n);
	MON_CHECK(d < 0, PFX "content", "%s session %d side %d: byte %lld of the stream read by %s differs", KIND[e->s->kind], e->s->id, e->side, (long long)(e->got + d), how);
	e->got += n;
	MON_CHECK(e->got <= e->in_total, PFX "too_many", "side %d received %lld of %lld bytes (%s)", e->side, (long long)e->got, (long long)e->in_total, how);
	e->sig = mon::hash(e->sig, n);
	mon::count(PFX "read_bytes", n);
}
static void (*before_op)(End*) = NULL;
// One read operation. Returns <=0 at the end of the stream or on failure.
static int do_read(End* e) {
	Rng& r = e->r;
	if (before_op) before_op(e);
	kconnection* cn = e->cn;
	switch (r.below(8)) {
	default: {
		int n = 1 + r.below(r.chance(1, 3) ? 30 : 5000);
		char* b = (char*)malloc(n);
		memset(b, 0xEE, n);
		int got = kfiber_net_read(cn, b, n);
		MON_CHECK(got <= n, PFX "read_result", "read of %d bytes returned %d", n, got);
		if (got > 0) {
			note_got(e, b, got, "read");
			for (int i = got; i < n; i++) if ((unsigned char)b[i] != 0xEE) { mon::violation(PFX "beyond", "read returned %d but changed byte %d of the buffer", got, i); break; }
		}
		free(b);
		return got;
	}
	case 0: case 1: {
		kgl_iovec v[20];
		int k = 1 + r.below(20);
		std::vector<char*> bs;
		int64_t total = 0;
		for (int i = 0; i < k; i++) {
			int n = r.chance(1, 6) ? 0 : 1 + r.below(400);
			if (i == 0 && n == 0) n = 1;
			char* b = (char*)malloc(n ? n : 1);
			memset(b, 0xEE, n);
			bs.push_back(b);
			v[i].iov_base = b; v[i].iov_len = n;
			total += n;
		}
		kgl_iovec save[20];
		memcpy(save, v, sizeof save);
		int got = kfiber_net_readv(cn, v, k);
		MON_CHECK(got <= total, PFX "readv_result", "vectored read of %lld bytes returned %d", (long long)total, got);
		MON_CHECK(!memcmp(save, v, k * sizeof v[0]), PFX "vector_changed", "a vectored read changed the vector");
		int left = got > 0 ? got : 0;
		for (int i = 0; i < k; i++) {
			int m = std::min<int>(left, save[i].iov_len);
			if (m > 0) note_got(e, bs[i], m, "readv");
			for (int j = m; got > 0 && j < (int)save[i].iov_len; j++) if ((unsigned char)bs[i][j] != 0xEE) { mon::violation(PFX "beyond", "readv returned %d but changed more", got); break; }
			left -= m;
			free(bs[i]);
		}
		mon::count(PFX "readv");
		return got;
	}
	case 2: {
		int n = 1 + r.below(3000);
		if (e->s->wait_peer && e->in_total > e->got) n = (int)std::min<int64_t>(n, e->in_total - e->got);
		char* b = (char*)malloc(n);
		int len = n;
		bool ok = kfiber_net_read_full(cn, b, &len);
		MON_CHECK(len >= 0 && len <= n && ok == (len == 0), PFX "full_result", "read_full of %d left %d and returned %d", n, len, ok);
		note_got(e, b, n - len, "read_full");
		free(b);
		mon::count(PFX "read_full");
		return ok ? n : -2;       // -2: ended, by end of stream or by failure
	}
	case 3: {
		krw_buffer kb;
		krw_buffer_init(&kb, 1 + r.below(700));
		int rounds = 1 + r.below(4), res = 1;
		int64_t in = 0;
		for (int i = 0; i < rounds; i++) {
			int len = 0;
			char* w = krw_get_write_buffer(&kb, &len);
			res = kfiber_net_read(cn, w, len);
			if (res <= 0) break;
			krw_write_success(&kb, res);
			in += res;
			if (e->s->wait_peer && e->got + in >= e->in_total) break;
		}
		char out[257];
		while (kb.total_len > 0) {
			int got = krw_read(&kb, out, 1 + r.below(256));
			if (got <= 0) break;
			note_got(e, out, got, "buffer chain");
			in -= got;
		}
		MON_CHECK(in == 0, PFX "chain", "%lld bytes read into a chain did not come out", (long long)in);
		krw_buffer_clean(&kb);
		mon::count(PFX "chain_reads");
		return res;
	}
	}
}
static int do_write(End* e) {
	Rng& r = e->r;
	if (before_op) before_op(e);
	kconnection* cn = e->cn;
	int64_t left = e->out_total - e->sent;
	switch (r.below(8)) {
	default: {
		int n = (int)std::min<int64_t>(left, 1 + r.below(r.chance(1, 3) ? 30 : 8000));
		char* b = (char*)malloc(n);
		give(e, b, e->sent, n);
		int got = kfiber_net_write(cn, b, n);
		MON_CHECK(got <= n && got != 0, PFX "write_result", "write of %d bytes returned %d", n, got);
		if (got > 0) note_sent(e, got);
		if (got > 0 && got < n) mon::count(PFX "partial_writes");
		free(b);
		return got;
	}
	case 0: case 1: case 2: {
		kgl_iovec v[24];
		int k = 1 + r.below(24);
		std::vector<char*> bs;
		int64_t total = 0;
		for (int i = 0; i < k; i++) {
			int n = r.chance(1, 6) ? 0 : (int)std::min<int64_t>(left - total, 1 + r.below(500));
			char* b = (char*)malloc(n ? n : 1);
			give(e, b, e->sent + total, n);
			bs.push_back(b);
			v[i].iov_base = b; v[i].iov_len = n;
			total += n;
		}
		int got;
		if (r.chance(1, 2)) {
			if (total == 0) { v[0].iov_len = 1; give(e, (char*)v[0].iov_base, e->sent, 1); total = 1; }
			got = kfiber_net_writev(cn, v, k);
			MON_CHECK(got <= total && got != 0, PFX "writev_result", "vectored write of %lld bytes returned %d", (long long)total, got);
			if (got > 0) note_sent(e, got);
			mon::count(PFX "writev");
		} else {
			int bc = k;
			size_t w = kfiber_net_writev_full(cn, v, &bc);
			MON_CHECK(w <= (size_t)total && bc >= 0 && bc <= k, PFX "full_result", "writev_full of %lld bytes in %d returned %zu with %d left", (long long)total, k, w, bc);
			MON_CHECK(w < (size_t)total || bc == 0, PFX "writev_full_count", "writev_full moved all %lld bytes but left %d of %d vectors", (long long)total, bc, k);
			MON_CHECK(bc != 0 || w == (size_t)total, PFX "full_result", "writev_full reported completion after %zu of %lld bytes", w, (long long)total);
			note_sent(e, w);
			got = w == (size_t)total ? 1 : -1;
			mon::count(PFX "writev_full");
		}
		for (char* b : bs) free(b);
		return got;
	}
	case 3: case 4: {
		int n = (int)std::min<int64_t>(left, 1 + r.below(20000));
		char* b = (char*)malloc(n);
		give(e, b, e->sent, n);
		int len = n;
		bool ok = kfiber_net_write_full(cn, b, &len);
		MON_CHECK(len >= 0 && len <= n && ok == (len == 0), PFX "full_result", "write_full of %d left %d and returned %d", n, len, ok);
		note_sent(e, n - len);
		free(b);
		mon::count(PFX "write_full");
		return ok ? 1 : -1;
	}
	case 5: {
		krw_buffer kb;
		krw_buffer_init(&kb, 1 + r.below(300));
		int n = (int)std::min<int64_t>(left, 1 + r.below(3000));
		char* b = (char*)malloc(n);
		give(e, b, e->sent, n);
		krw_write_str(&kb, b, n);
		free(b);
		int res = 1;
		while (kb.total_len > 0) {
			kgl_iovec v[8];
			int bc = krw_get_read_buffers(&kb, v, 1 + r.below(8));
			int64_t total = 0;
			for (int i = 0; i < bc; i++) total += v[i].iov_len;
			res = kfiber_net_writev(cn, v, bc);
			if (res <= 0) break;
			MON_CHECK(res <= total, PFX "writev_result", "chain write of %lld returned %d", (long long)total, res);
			note_sent(e, res);
			krw_read_success(&kb, res);
		}
		krw_buffer_clean(&kb);
		mon::count(PFX "chain_writes");
		return res;
	}
	}
}
static void end_of_stream(End* e, int got) {
	if (e->s->closing == 2) return;
	if (e->s->closing == 3) {
		// the peer ends the connection without ending the stream: an end or a failure, with all
		// that was sent before it
		if (got == 0) mon::count(PFX "truncated_as_end");
		MON_CHECK(e->got == e->in_total, PFX "early_end", "failed after %lld of %lld bytes", (long long)e->got, (long long)e->in_total);
		return;
	}
	if (e->closer) mon::violation(PFX "early_end", "the reader of the closing side got %d after %lld of %lld bytes", got, (long long)e->got, (long long)e->in_total);
	else if (got == 0 || got == -2) {
		if (e->got != e->in_total && e->cn->st.ssl) ERR_print_errors_fp(stderr);
		MON_CHECK(e->got == e->in_total, PFX "early_end", "end of stream after %lld of %lld bytes (%s)", (long long)e->got, (long long)e->in_total, KIND[e->s->kind]);
		mon::count(PFX "ends");
	} else if (e->cn->st.ssl) {
		SSL* q = e->cn->st.ssl->ssl;
		int er = errno, want = SSL_want(q), flags = BIO_test_flags(SSL_get_rbio(q), ~0);
		unsigned long first = ERR_peek_error(), last = ERR_peek_last_error();
		mon::violation(PFX "error", "a read failed (%d, SSL state %s, errno %d, wants %d, BIO %x, errors %lx %lx, flags %x, shutdown %d) after %lld of %lld bytes", got, SSL_state_string_long(q), er, want, flags, first, last, (unsigned)e->cn->st.base.st_flags, SSL_get_shutdown(q), (long long)e->got, (long long)e->in_total);
	} else mon::violation(PFX "error", "a read failed (%d, errno %d) after %lld of %lld bytes of an orderly session", got, errno, (long long)e->got, (long long)e->in_total);
}
static void maybe_abort(End* e) {
	if (e->s->closing == 2 && !e->s->aborted && e->side == 0 && e->sent + e->got >= e->s->abort_at) {
		e->s->aborted = true;
		abort_fn(e->cn);
		mon::count(PFX "aborted");
	}
}
static int reader(End* e) {
	for (;;) {
		if (e->closer && e->got == e->in_total) break;
		if (e->slow && e->r.chance(1, 5)) kfiber_msleep(e->r.below(3));
		int got;
		if (e->closer) {
			// only what is still to come: the peer does not close first
			int n = (int)std::min<int64_t>(e->in_total - e->got, 1 + e->r.below(4000));
			char* b = (char*)malloc(n);
			got = kfiber_net_read(e->cn, b, n);
			if (got > 0) note_got(e, b, got, "read");
			free(b);
		} else got = do_read(e);
		if (got <= 0) {
			end_of_stream(e, got);
			if (got == 0) {
				// the end of the stream stays the end
				char c;
				int again = kfiber_net_read(e->cn, &c, 1);
				MON_CHECK(again <= 0, PFX "after_end", "a read after the end of stream returned %d", again);
			}
			break;
		}
		maybe_abort(e);
	}
	e->rdone = 1;
	mon::progress();
	return 0;
}
static int writer(End* e) {
	while (e->sent < e->out_total) {
		if (e->slow && e->r.chance(1, 8)) kfiber_msleep(e->r.below(3));
		int got = do_write(e);
		if (got <= 0) {
			if (e->cn->st.ssl) ERR_print_errors_fp(stderr);
			MON_CHECK(e->s->closing == 2, PFX "error", "a write failed (%d, errno %d) after %lld of %lld bytes of an orderly session", got, errno, (long long)e->sent, (long long)e->out_total);
			break;
		}
		maybe_abort(e);
	}
	e->wdone = 1;
	mon::progress();
	return 0;
}
// ---- callback interface: state machines on the loop's main fiber ------------------------
struct CbRead { End* e; char* b; int n; kgl_iovec v, buf; };
static kev_result cb_read(KOPAQUE data, void* arg, int got);
static kev_result cb_read_next(CbRead* c) {
	End* e = c->e;
	if (e->closer && e->got == e->in_total) { e->rdone = 1; free(c->b); delete c; return kev_ok; }
	free(c->b);
	c->n = 1 + e->r.below(3000);
	if (e->closer) c->n = (int)std::min<int64_t>(c->n, e->in_total - e->got);
	c->b = (char*)malloc(c->n);
	c->v.iov_base = c->b; c->v.iov_len = c->n;
	c->buf.iov_base = (char*)&c->v; c->buf.iov_len = 1;
	if (before_op) before_op(e);
	return selectable_read(&e->cn->st, cb_read, &c->buf, c);
}
static kev_result cb_turn(KOPAQUE, void* arg, int got) {
	MON_CHECK(got == 0, PFX "next_read", "a requested read turn reported %d", got);
	return cb_read_next((CbRead*)arg);
}
static kev_result cb_read(KOPAQUE, void* arg, int got) {
	CbRead* c = (CbRead*)arg;
	End* e = c->e;
	mon::count(PFX "cb_reads");
	MON_CHECK(kselector_is_main_fiber(e->cn->st.base.selector) || kfiber_self2() != NULL, PFX "cb_ctx", "callback outside any fiber");
	MON_CHECK(kgl_get_tls_selector() == e->sel, PFX "cb_thread", "a read callback ran on another thread");
	MON_CHECK(got <= c->n, PFX "read_result", "read of %d bytes returned %d", c->n, got);
	if (got <= 0) { end_of_stream(e, got); e->rdone = 1; free(c->b); delete c; mon::progress(); return kev_ok; }
	note_got(e, c->b, got, "callback read");
	if (e->r.chance(1, 5)) { mon::count(PFX "next_read"); selectable_next_read(&e->cn->st, cb_turn, c); return kev_ok; }
	return cb_read_next(c);
}
struct CbWrite { End* e; char* b; int n; kgl_iovec v[3], buf; };
static kev_result cb_write(KOPAQUE data, void* arg, int got);
static kev_result cb_write_next(CbWrite* c) {
	End* e = c->e;
	free(c->b);
	c->b = NULL;
	if (e->sent == e->out_total) { e->wdone = 1; delete c; mon::progress(); return kev_ok; }
	c->n = (int)std::min<int64_t>(e->out_total - e->sent, 1 + e->r.below(5000));
	c->b = (char*)malloc(c->n);
	give(e, c->b, e->sent, c->n);
	int a = e->r.below(c->n + 1);
	c->v[0].iov_base = c->b; c->v[0].iov_len = a;
	c->v[1].iov_base = c->b; c->v[1].iov_len = 0;
	c->v[2].iov_base = c->b + a; c->v[2].iov_len = c->n - a;
	c->buf.iov_base = (char*)c->v; c->buf.iov_len = 3;
	if (before_op) before_op(e);
	return selectable_write(&e->cn->st, cb_write, &c->buf, c);
}
static kev_result cb_wturn(KOPAQUE, void* arg, int got) {
	return cb_write_next((CbWrite*)arg);
}
static kev_result cb_write(KOPAQUE, void* arg, int got) {
	CbWrite* c = (CbWrite*)arg;
	End* e = c->e;
	mon::count(PFX "cb_writes");
	MON_CHECK(got <= c->n, PFX "write_result", "write of %d bytes returned %d", c->n, got);
	if (got <= 0) {
		MON_CHECK(e->s->closing == 2, PFX "error", "a callback write failed (%d) in an orderly session", got);
		e->wdone = 1; free(c->b); delete c; return kev_ok;
	}
	note_sent(e, got);
	if (e->r.chance(1, 5)) { mon::count(PFX "next_write"); selectable_next_write(&e->cn->st, cb_wturn, c); return kev_ok; }
	return cb_write_next(c);
}
// ---- the life of one end ---------------------------------------------------------------
static void run_end(End* e) {
	Session* s = e->s;
	if (s->kind != 2) kconnection_no_delay(e->cn, false);
	bool cbr = e->r.chance(1, 4), cbw = e->r.chance(1, 4);
	kfiber *rf = NULL, *wf = NULL;
	auto start_r = [&] {
		if (cbr) { CbRead* c = new CbRead{ e }; c->b = NULL; int how = e->r.below(3); if (how == 0) cb_read_next(c); else if (how == 1) { mon::count(PFX "first_turn"); selectable_next_read(&e->cn->st, cb_turn, c); } else kx::post(e->sel, [c] { cb_read_next(c); }); }
		else kx::spawn_local([e](int) { return reader(e); }, NULL, 0, 0, &rf);
	};
	auto start_w = [&] {
		if (cbw) { CbWrite* c = new CbWrite{ e }; c->b = NULL; int how = e->r.below(3); if (how == 0) cb_write_next(c); else if (how == 1) selectable_next_write(&e->cn->st, cb_wturn, c); else kx::post(e->sel, [c] { cb_write_next(c); }); }
		else kx::spawn_local([e](int) { return writer(e); }, NULL, 0, 0, &wf);
	};
	if (e->r.chance(1, 2)) { start_r(); start_w(); } else { start_w(); start_r(); }
	int rv;
	if (s->closing == 2 && e->side == 0) {
		for (int k = 0; k < 60 && !s->aborted && e->sent + e->got < s->abort_at; k++) kfiber_msleep(1);
		s->abort_at = 0;
		maybe_abort(e);
	}
	if (rf) kfiber_join(rf, &rv);
	if (wf) kfiber_join(wf, &rv);
	while (!e->rdone || !e->wdone) kfiber_msleep(1);
	mon::cover(e->sig);
	if (s->wait_peer && e->closer) while (!s->e[!e->side].bound || s->e[!e->side].got < s->e[!e->side].in_total) kfiber_msleep(1);
	if (s->closing == 1 && e->closer) kfiber_net_shutdown(e->cn);
	kconnection* cn = e->cn;
	e->cn = NULL;
	if (e->r.chance(1, 4)) kconnection_destroy(cn);
	else kfiber_net_close(cn);
	kx::signal_done(&s->done);
}
static void bind_end(End* e, kconnection* cn) {
	e->cn = cn;
	e->sel = cn->st.base.selector;
	e->bound = 1;
	MON_CHECK(e->sel == kgl_get_tls_selector(), PFX "loop", "a connection is bound to another loop than its fiber runs on");
}
static std::vector<Session*> live;
static void hang_info(char* b, size_t n) {
	size_t k = 0;
	for (Session* s : live) if (s->done < 2) for (int i = 0; i < 2; i++) {
		End& e = s->e[i];
		k += snprintf(b + k, k < n ? n - k : 0, "[%s #%d side %d closing %d aborted %d closer %d flags %x queued %d: sent %lld/%lld got %lld/%lld w%d r%d] ", KIND[s->kind], s->id, i, s->closing, s->aborted, e.closer, e.cn ? e.cn->st.base.st_flags : 0, e.cn && e.cn->st.base.queue.next,
			(long long)e.sent, (long long)e.out_total, (long long)e.got, (long long)e.in_total, e.wdone.load(), e.rdone.load());
		if (e.cn && e.cn->st.ssl) k += snprintf(b + k, k < n ? n - k : 0, "<pending %d has %d want %d shutdown %d bio %d %d state %s> ", SSL_pending(e.cn->st.ssl->ssl), SSL_has_pending(e.cn->st.ssl->ssl), SSL_want(e.cn->st.ssl->ssl), SSL_get_shutdown(e.cn->st.ssl->ssl), (int)BIO_pending(SSL_get_rbio(e.cn->st.ssl->ssl)), (int)BIO_pending(SSL_get_wbio(e.cn->st.ssl->ssl)), SSL_state_string_long(e.cn->st.ssl->ssl));
		if (k >= n) return;
	}
}
