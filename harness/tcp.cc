// TCP streams (C09): full-duplex sessions over real sockets; every byte received is checked
// against the pattern of the stream it belongs to.
#include "stream.h"
static void server_side(kconnection* cn, uint64_t) {
	Rng r = kx::rng_for(77, (uint64_t)cn);
	uint64_t id = 0;
	int len = sizeof id;
	if (!kfiber_net_read_full(cn, (char*)&id, &len)) { mon::violation("tcp.hello", "the first bytes of a connection could not be read (left %d)", len); kfiber_net_close(cn); return; }
	Session* s = NULL;
	{ SpinGuard g(tab_lk); if (tab.count(id)) { s = tab[id]; tab.erase(id); } }
	if (!s) { mon::violation("tcp.hello", "the first bytes of a connection are wrong"); kfiber_net_close(cn); return; }
	bind_end(&s->e[1], cn);
	run_end(&s->e[1]);
}
static void start_session(Session* s, Rng& r) {
	if (s->kind == 2) {
		int fd[2];
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd)) mon::harness_error("socketpair");
		for (int i = 0; i < 2; i++) {
			if (r.chance(1, 2)) small_buffers(fd[i], r);
			End* e = &s->e[i];
			int f = fd[i];
			kx::spawn(get_selector_by_index(r.below(kx::n_loops)), [e, f](int) {
				kconnection* cn = kconnection_new(NULL);
				cn->st.fd = f;
				selectable_bind(&cn->st, kgl_get_tls_selector());
				bind_end(e, cn);
				run_end(e);
				return 0;
			});
		}
		return;
	}
	uint64_t key = mon::hash(mon::seed, 1000000 + s->id);
	{ SpinGuard g(tab_lk); tab[key] = s; }
	bool small = r.chance(1, 2);
	kx::spawn(get_selector_by_index(r.below(kx::n_loops)), [s, key, small](int) {
		End* e = &s->e[0];
		kconnection* cn = kconnection_new(&srv[s->kind]->addr);
		int rc = kfiber_net_connect(cn, NULL, 0);
		MON_CHECK(rc == 0, "tcp.connect", "connecting to an open server failed (%d)", rc);
		if (rc != 0) { kfiber_net_close(cn); mon_fetch_add32(&s->done, 2); return 0; }
		if (small) small_buffers(cn->st.fd, e->r);
		bind_end(e, cn);
		uint64_t id = key;
		int len = sizeof id;
		if (!kfiber_net_write_full(cn, (char*)&id, &len)) mon::violation("tcp.hello", "could not write to a fresh connection");
		run_end(e);
		return 0;
	});
}
static void mode_tcp() {
	mon::on_hang = hang_info;
	signal(SIGPIPE, SIG_IGN);
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	on_conn = server_side;
	srv[0] = open_server(kx::loop4());
	srv[1] = open_server("::1");
	Rng R(mon::seed * 31 + 9);
	int conc = mon::iarg("conc", 12);
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("sessions %d..%d, short %d%%, would block %d%%", base, base + n - 1, short_num, again_num);
		std::vector<Session*> ss;
		for (int i = 0; i < n; i++) {
			Session* s = new Session;
			s->id = base + i;
			s->kind = (int)R.below(3);
			s->closing = R.chance(1, 5) ? 2 : (int)R.below(2);
			int closer = (int)R.below(2);
			for (int k = 0; k < 2; k++) {
				End& e = s->e[k];
				e.s = s; e.side = k;
				e.out_id = s->id * 4 + k; e.in_id = s->id * 4 + !k;
				e.closer = closer == k;
				e.slow = R.chance(1, 3);
				e.r = Rng(mon::hash(mon::hash(mon::seed, s->id), k));
				e.out_total = R.chance(1, 8) ? 0 : R.chance(1, 4) ? R.below(20) : R.chance(1, 4) ? R.below(200000) : R.below(20000);
			}
			s->e[0].in_total = s->e[1].out_total;
			s->e[1].in_total = s->e[0].out_total;
			s->abort_at = R.below((uint32_t)(s->e[0].out_total + s->e[0].in_total + 1));
			if (s->closing == 2) s->e[0].closer = s->e[1].closer = false;
			ss.push_back(s);
		}
		live = ss;
		for (Session* s : ss) start_session(s, R);
		for (Session* s : ss) {
			kx::wait_done(&s->done, 2);
			if (s->closing != 2) for (int k = 0; k < 2; k++)
				MON_CHECK(s->e[k].sent == s->e[k].out_total && s->e[k].got == s->e[k].in_total, "tcp.total", "side %d sent %lld of %lld and received %lld of %lld", k,
					(long long)s->e[k].sent, (long long)s->e[k].out_total, (long long)s->e[k].got, (long long)s->e[k].in_total);
			else for (int k = 0; k < 2; k++)
				MON_CHECK(s->e[k].got <= s->e[!k].sent, "tcp.more_than_sent", "side %d received %lld bytes, the peer's writes reported %lld", k, (long long)s->e[k].got, (long long)s->e[!k].sent);
			mon::count("tcp.sessions");
			mon::eval();
		}
		live.clear();
		for (Session* s : ss) delete s;
		mon::progress();
	}
}
// ---- raw peers: ordinary blocking sockets that split, pause, half-close and reset --------
struct Raw { uint64_t key; int64_t to_lib, from_lib; int how; bool ok; int64_t lib_got, lib_sent; int lib_first_end; volatile int done, known; int slow; int lib_w; };
static std::map<uint64_t, Raw*> rtab;
static void raw_side(kconnection* cn, uint64_t) {
	uint64_t id = 0;
	int len = sizeof id;
	if (!kfiber_net_read_full(cn, (char*)&id, &len)) { mon::violation("tcp.hello", "first bytes"); kfiber_net_close(cn); return; }
	Raw* w;
	{ SpinGuard g(tab_lk); w = rtab[id]; }
	if (!w) { mon::violation("tcp.hello", "first bytes are wrong"); kfiber_net_close(cn); return; }
	mon_store32(&w->known, 1);
	Session s;
	s.id = (int)(id & 0xffff); s.kind = 0; s.closing = 2; s.aborted = true;
	End* e = &s.e[1];
	e->s = &s; e->side = 1; e->closer = false; e->slow = w->slow; e->out_id = (uint32_t)id + 1; e->in_id = (uint32_t)id; e->out_total = w->from_lib; e->in_total = w->to_lib;
	e->r = Rng(id);
	e->cn = cn; e->sel = cn->st.base.selector;
	volatile int dummy = 0;
	kfiber* wf = NULL;
	if (w->from_lib) kx::spawn_local([e](int) { return writer(e); }, &dummy, 0, 0, &wf);
	int got;
	for (;;) {
		if (e->slow && e->r.chance(1, 5)) kfiber_msleep(1);
		got = do_read(e);
		if (got <= 0) break;
	}
	w->lib_first_end = got;
	int rv;
	if (wf) kfiber_join(wf, &rv);
	w->lib_got = e->got; w->lib_sent = e->sent;
	kfiber_net_close(cn);
	kx::signal_done(&w->done);
}
static void* raw_thread(void* arg) {
	Raw* w = (Raw*)arg;
	Rng r(w->key * 7 + 1);
	int fd = socket(AF_INET, SOCK_STREAM, 0);
	if (connect(fd, (sockaddr*)&srv[0]->addr, sizeof(sockaddr_in))) mon::harness_error("raw connect %d", errno);
	int one = 1;
	if (r.chance(1, 2)) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	if (r.chance(1, 2)) small_buffers(fd, r);
	std::string out((char*)&w->key, 8);
	std::string body(w->to_lib, 0);
	fill(&body[0], (uint32_t)w->key, 0, body.size());
	out += body;
	size_t pos = 0;
	int64_t in = 0;
	bool eof = false;
	char b[4096];
	auto take = [&](int n) {
		ssize_t d = differs(b, (uint32_t)w->key + 1, in, n);
		MON_CHECK(d < 0, "tcp.content", "byte %lld written by the library differs on the wire", (long long)(in + d));
		in += n;
	};
	while (pos < out.size()) {
		struct pollfd pf = { fd, (short)(POLLOUT | (eof ? 0 : POLLIN)), 0 };
		poll(&pf, 1, 1000);
		if (pf.revents & POLLIN) {
			int n = (int)recvfrom(fd, b, 1 + r.below(sizeof b), MSG_DONTWAIT, NULL, NULL);
			if (n > 0) take(n); else if (n == 0) eof = true;
		}
		if (pf.revents & POLLOUT) {
			size_t m = std::min<size_t>(out.size() - pos, 1 + r.below(r.chance(1, 2) ? 20 : 6000));
			ssize_t n = sendto(fd, out.data() + pos, m, MSG_DONTWAIT | MSG_NOSIGNAL, NULL, 0);
			if (n > 0) pos += n; else if (n < 0 && errno != EAGAIN) break;
		}
		if (r.chance(1, 6)) mon::real_usleep(r.below(400));
	}
	if (w->how == 2) {          // reset
		// (a reset may overtake the first bytes, and nobody would know whose it was)
		while (!mon_load32(&w->known)) mon::real_usleep(50);
		struct linger lg = { 1, 0 };
		setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
		close(fd);
	} else {
		if (w->how == 1) shutdown(fd, SHUT_WR);
		if (w->how == 0) while (in < w->from_lib) { int n = (int)recvfrom(fd, b, sizeof b, 0, NULL, NULL); if (n <= 0) break; take(n); }
		else for (;;) { int n = (int)recvfrom(fd, b, sizeof b, 0, NULL, NULL); if (n <= 0) break; take(n); }
		close(fd);
	}
	mon_fetch_add32(&w->done, 0);
	w->ok = true;
	return (void*)(intptr_t)in;
}
static void mode_raw() {
	signal(SIGPIPE, SIG_IGN);
	kx::loops_start(mon::iarg("loops", 2));
	on_conn = raw_side;
	srv[0] = open_server(kx::loop4());
	Rng R(mon::seed * 17 + 3);
	int conc = 8;
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("raw sessions %d..%d", base, base + n - 1);
		std::vector<Raw*> ws;
		std::vector<pthread_t> th(n);
		for (int i = 0; i < n; i++) {
			Raw* w = new Raw();
			w->key = mon::hash(mon::seed * 3, base + i);
			w->how = (int)R.below(3);
			w->to_lib = R.chance(1, 6) ? 0 : R.below(40000);
			// a peer that has closed its sending side is taken as gone: no writing then
			w->from_lib = w->how == 0 ? R.below(40000) : 0;
			w->slow = (int)R.below(2);
			{ SpinGuard g(tab_lk); rtab[w->key] = w; }
			ws.push_back(w);
		}
		for (int i = 0; i < n; i++) pthread_create(&th[i], NULL, raw_thread, ws[i]);
		for (int i = 0; i < n; i++) {
			void* in;
			pthread_join(th[i], &in);
			kx::wait_done(&ws[i]->done, 1);
			Raw* w = ws[i];
			if (w->how != 2) {
				MON_CHECK(w->lib_got == w->to_lib && (w->lib_first_end == 0 || w->lib_first_end == -2), "tcp.raw_total", "peer sent %lld and closed (%s): received %lld, result %d", (long long)w->to_lib, w->how ? "half" : "whole", (long long)w->lib_got, w->lib_first_end);
				MON_CHECK((int64_t)(intptr_t)in == w->from_lib && w->lib_sent == w->from_lib, "tcp.raw_total", "library sent %lld of %lld, peer received %lld", (long long)w->lib_sent, (long long)w->from_lib, (long long)(intptr_t)in);
				mon::count(w->how ? "raw.half_closed" : "raw.closed");
			} else {
				MON_CHECK(w->lib_got <= w->to_lib, "tcp.raw_total", "received more than sent");
				MON_CHECK(w->lib_got == w->to_lib || w->lib_first_end != 0, "tcp.reset_as_end", "a reset connection looked like an orderly end after %lld of %lld bytes", (long long)w->lib_got, (long long)w->to_lib);
				mon::count("raw.reset");
				if (w->lib_first_end < 0) mon::count("raw.reset_seen");
			}
			mon::cover(mon::hash(w->key, w->lib_got));
			mon::eval();
			{ SpinGuard g(tab_lk); rtab.erase(w->key); }
			delete w;
		}
		mon::progress();
	}
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C09");
	std::string m = mon::arg("mode", "tcp");
	mon::watchdog(mon::iarg("hang", 20));
	if (m == "tcp") mode_tcp();
	else if (m == "raw") mode_raw();
	else mon::harness_error("mode %s", m.c_str());
	mon::finish();
}
