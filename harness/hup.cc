// Watching a connection for the peer hanging up (C27): selectable_readhup / selectable_remove_readhup.
#include "net.h"
using namespace net;

struct Cn;
struct Watch { Cn* c; volatile int told, active, again; int got; int id; };
struct Cmd { int op, n, wait; };     // what the raw peer is to do
enum { SEND, RECV, HALF, CLOSE, RESET, QUIT };
struct Cn {
	int id, kind, loop;
	Rng r;
	kconnection* cn;
	int peer;                        // the raw end
	pthread_mutex_t mu; pthread_cond_t cv;
	std::vector<Cmd> q;
	volatile int hung_begun, hung, acks, done, bad;
	uint64_t to_lib, from_lib;       // stream offsets the peer has reached
	uint64_t read_at, write_at;      // stream offsets the fiber has reached
	std::vector<Watch*> watches;
	uint64_t sig;
	const char* step;
	Cn() : id(0), kind(0), loop(0), r(1), cn(NULL), peer(-1), hung_begun(0), hung(0), acks(0), done(0), bad(0), to_lib(0), from_lib(0), read_at(0), write_at(0), sig(0), step("") { pthread_mutex_init(&mu, NULL); pthread_cond_init(&cv, NULL); }
};
enum { PAIR, TCP_, CONNECTED };
static void* peer_main(void* p) {
	Cn* c = (Cn*)p;
	std::vector<char> b(70000);
	for (;;) {
		pthread_mutex_lock(&c->mu);
		while (c->q.empty()) pthread_cond_wait(&c->cv, &c->mu);
		Cmd m = c->q.front();
		c->q.erase(c->q.begin());
		pthread_mutex_unlock(&c->mu);
		if (m.wait) mon::real_usleep(m.wait);
		if (m.op == SEND) {
			net::fill(b.data(), c->id * 2, c->to_lib, m.n);
			for (int o = 0; o < m.n;) {
				ssize_t w = sendto(c->peer, b.data() + o, m.n - o, MSG_NOSIGNAL, NULL, 0);
				if (w <= 0) { c->bad = 1; break; }
				o += (int)w;
			}
			c->to_lib += m.n;
		} else if (m.op == RECV) {
			for (int o = 0; o < m.n;) {
				ssize_t g = recvfrom(c->peer, b.data(), std::min(m.n - o, (int)b.size()), 0, NULL, NULL);
				if (g <= 0) { c->bad = 2; break; }
				if (differs(b.data(), c->id * 2 + 1, c->from_lib, g) >= 0) mon::violation("hup.bytes", "the peer received wrong bytes");
				o += (int)g;
				c->from_lib += g;
			}
		} else if (m.op == HALF) {
			mon_store32(&c->hung_begun, 1);
			shutdown(c->peer, SHUT_WR);
			mon_store32(&c->hung, 1);
		} else if (m.op == CLOSE || m.op == RESET) {
			if (m.op == RESET) { struct linger l = { 1, 0 }; setsockopt(c->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
			mon_store32(&c->hung_begun, 1);
			close(c->peer);
			c->peer = -1;
			mon_store32(&c->hung, 1);
		} else break;
		mon_fetch_add32(&c->acks, 1);
	}
	if (c->peer >= 0) close(c->peer);
	mon_store32(&c->done, 2);
	return NULL;
}
static int tell(Cn* c, int op, int n = 0, int wait = 0) {
	pthread_mutex_lock(&c->mu);
	c->q.push_back(Cmd{ op, n, wait });
	pthread_cond_signal(&c->cv);
	pthread_mutex_unlock(&c->mu);
	c->sig = mon::hash(c->sig, mon::hash(op, n));
	return 0;
}
static void pause_(Cn* c, int max) {
	int v = c->r.below(max + 1);
	if (v) kfiber_msleep(v);
}
static kev_result on_hup(KOPAQUE data, void* arg, int got);
static Watch* watch(Cn* c, bool expect = true) {
	Watch* w = new Watch();
	w->c = c; w->told = 0; w->active = 1; w->again = 0; w->id = (int)c->watches.size();
	c->watches.push_back(w);
	mon::count("watches");
	bool ok = selectable_readhup(&c->cn->st, on_hup, w);
	if (!expect) {
		MON_CHECK(!ok, "hup.refused", "a watch was accepted on a connection with an operation under way");
		w->active = 0;
		mon::count("refused");
	} else MON_CHECK(ok, "hup.accepted", "a connection with no operation under way could not be watched");
	return w;
}
static kev_result on_hup(KOPAQUE data, void* arg, int got) {
	Watch* w = (Watch*)arg;
	Cn* c = w->c;
	MON_CHECK(data == c->cn->st.data, "hup.args", "the call-back was given another connection's data");
	MON_CHECK(kx::my_loop() == c->loop, "hup.thread", "told on loop %d, the connection is bound to loop %d", kx::my_loop(), c->loop);
	MON_CHECK(mon_load32(&c->hung_begun), "hup.early", "told of a hang-up that did not happen (step %s)", c->step);
	MON_CHECK(w->active, "hup.after_end", "a watch that had ended was told (step %s)", c->step);
	int was = w->told;
	MON_CHECK(was == 0, "hup.twice", "one watch was told %d times (step %s)", was + 1, c->step);
	w->told = 1;
	w->got = got;
	w->active = 0;
	mon::count("told");
	if (w->again) { mon::count("watched_in_callback"); watch(c); }
	mon::progress();
	return kev_ok;
}
static void unwatch(Cn* c, Watch* w) {
	selectable_remove_readhup(&c->cn->st);
	if (!w->told) mon::count("removed");
	w->active = 0;
}
static void until_told(Cn* c, Watch* w, const char* how) {
	for (int turns = 0; !w->told && turns < 2500; turns += mon_load32(&c->hung)) kfiber_msleep(1);   // turns of its loop since
	MON_CHECK(w->told == 1, "hup.lost", "the peer hung up (%s) and the watch was not told while its loop turned 2500 times", how);
	if (!w->told) unwatch(c, w);
}
static bool read_n(Cn* c, int n, bool must) {
	std::vector<char> b(n + 1);
	int len = n;
	bool ok = kfiber_net_read_full(c->cn, b.data(), &len);
	int got = ok ? n : n - len;
	if (got > 0) {
		MON_CHECK(differs(b.data(), c->id * 2, c->read_at, got) < 0, "hup.bytes", "wrong bytes were read (step %s)", c->step);
		c->read_at += got;
		mon::count("bytes", got);
	}
	if (must) MON_CHECK(ok, "hup.usable", "%d of %d bytes could not be read (step %s)", n - got, n, c->step);
	return ok;
}
static bool write_n(Cn* c, int n, bool must) {
	std::vector<char> b(n + 1);
	net::fill(b.data(), c->id * 2 + 1, c->write_at, n);
	int len = n;
	bool ok = kfiber_net_write_full(c->cn, b.data(), &len);
	c->write_at += n;
	if (must) MON_CHECK(ok, "hup.usable", "%d bytes could not be written (step %s)", n, c->step);
	return ok;
}
static void exchange(Cn* c) {
	int n = 1 + c->r.below(3000), m = 1 + c->r.below(3000);
	if (c->r.chance(1, 2)) { tell(c, SEND, n, c->r.below(300)); read_n(c, n, true); tell(c, RECV, m); write_n(c, m, true); }
	else { tell(c, RECV, m); tell(c, SEND, n, c->r.below(300)); write_n(c, m, true); read_n(c, n, true); }
	mon::count("exchanges");
}
static int life(Cn* c) {
	Rng& r = c->r;
	if (c->kind == CONNECTED) {
		sockaddr_i a;
		socklen_t l = sizeof a;
		int ls = c->peer;             // a listening socket so far
		getsockname(ls, (sockaddr*)&a, &l);
		c->cn = kconnection_new(&a);
		int rc = kfiber_net_connect(c->cn, NULL, 0);
		MON_CHECK(rc == 0, "hup.connect", "connecting failed");
		c->peer = accept(ls, NULL, NULL);
		close(ls);
	} else selectable_bind(&c->cn->st, kgl_get_tls_selector());
	c->loop = kx::my_loop();
	pthread_t pt;
	if (pthread_create(&pt, NULL, peer_main, c)) mon::harness_error("thread");
	int steps = r.below(6);
	for (int i = 0; i < steps && !mon::violated(); i++) {
		int what = r.below(7);
		c->sig = mon::hash(c->sig, what);
		if (what == 0) { c->step = "exchange"; exchange(c); }
		else if (what == 1) {          // watched for a while, nothing happens
			c->step = "watch and remove";
			Watch* w = watch(c);
			pause_(c, 4);
			MON_CHECK(!w->told, "hup.early", "told of a hang-up that did not happen");
			unwatch(c, w);
			if (r.chance(1, 3)) selectable_remove_readhup(&c->cn->st);     // nothing is watched any more
			if (r.chance(1, 2)) exchange(c);
		} else if (what == 2) {        // data comes while it is watched
			c->step = "data while watched, removed";
			int n = 1 + r.below(4000);
			Watch* w = watch(c);
			tell(c, SEND, n, r.below(600));
			pause_(c, 4);
			unwatch(c, w);
			mon::count("data_while_watched");
			read_n(c, n, true);
		} else if (what == 3) {        // a read takes the place of the watch
			c->step = "watch, then read";
			int n = 1 + r.below(4000);
			bool before = r.chance(1, 2);
			if (before) { tell(c, SEND, n); pause_(c, 2); }
			Watch* w = watch(c);
			pause_(c, 2);
			if (!before) tell(c, SEND, n, r.below(800));
			w->active = 0;
			read_n(c, n, true);
			mon::count("replaced_by_read");
		} else if (what == 4) {
			c->step = "watch, then write";
			int n = 1 + r.below(8000);
			Watch* w = watch(c);
			pause_(c, 2);
			w->active = 0;
			tell(c, RECV, n, r.below(800));
			write_n(c, n, true);
			mon::count("replaced_by_write");
		} else if (what == 5) {        // an operation is under way
			bool rd = r.chance(1, 2);
			c->step = rd ? "watch beside a read" : "watch beside a write";
			volatile int busy = 0;
			int n = rd ? 1 + r.below(3000) : 400000, done = 0;
			if (!rd) { int v = 4000; setsockopt(c->cn->st.fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
			kfiber* f = NULL;
			kx::spawn_local([c, n, rd, &done](int) { if (rd) read_n(c, n, true); else write_n(c, n, true); done = 1; return 0; }, &busy, 0, 0, &f);
			kfiber_msleep(1 + r.below(3));
			if (KBIT_TEST(c->cn->st.base.st_flags, STF_READ | STF_WRITE)) watch(c, false);
			if (rd) tell(c, SEND, n); else tell(c, RECV, n);
			int rv = 0;
			kfiber_join(f, &rv);
			MON_CHECK(done, "hup.usable", "an operation beside a refused watch did not finish");
		} else {                       // watched twice: the second watch takes the place of the first
			c->step = "watched anew";
			Watch* w = watch(c);
			pause_(c, 1);
			w->active = 0;
			Watch* v = watch(c);
			pause_(c, 2);
			MON_CHECK(!w->told && !v->told, "hup.early", "told of a hang-up that did not happen");
			unwatch(c, v);
		}
	}
	// the end
	static const char* hows[] = { "half-close", "close", "reset" };
	bool at_end = false;
	int how = r.below(3), last = r.chance(1, 2) ? 1 + r.below(5000) : 0, order = r.below(6);
	if (c->kind == PAIR && how == 2) how = 1;
	c->sig = mon::hash(c->sig, how * 10 + order);
	if (!mon::violated()) {
		if (last && r.chance(1, 2)) { tell(c, SEND, last); pause_(c, 2); } else if (last) tell(c, SEND, last, r.below(300));
		bool readable = how != 2;
		if (order == 0 || order == 1) {            // watched before it happens
			c->step = "hang-up while watched";
			Watch* w = watch(c);
			w->again = r.chance(1, 4);
			pause_(c, 2);
			tell(c, HALF + how, 0, r.below(1500));
			until_told(c, w, hows[how]);
			if (w->again && w->told) until_told(c, c->watches.back(), "again");
			if (r.chance(1, 3)) selectable_remove_readhup(&c->cn->st);
			mon::count("hang_up_while_watched");
		} else if (order == 2) {                   // it has happened already
			c->step = "watched after the hang-up";
			if (r.chance(1, 2) && last) { int n = 1 + r.below(last); read_n(c, n, true); last -= n; }
			tell(c, HALF + how);
			while (!mon_load32(&c->hung)) kfiber_msleep(1);
			pause_(c, 4);
			Watch* w = watch(c);
			bool at_once = r.chance(1, 2);
			if (at_once) {                           // removed in the very turn it was set, when it is about to be told
				for (int k = r.range(1, 3); k > 0; k--) { unwatch(c, w); if (k > 1 || r.chance(1, 2)) w = watch(c); else { w = NULL; break; } }
				mon::count("removed_at_once");
				if (w == NULL && r.chance(1, 2)) { last = 0; readable = false; at_end = true; mon::count("removed_and_closed_at_once"); }
			}
			if (w) until_told(c, w, hows[how]);
			mon::count("watched_after_hang_up");
		} else if (order == 3) {                   // at the same time
			c->step = "watched about when it hangs up";
			tell(c, HALF + how, 0, r.below(1500));
			if (r.chance(1, 2)) pause_(c, 2); else kx::spin(r.below(3000));
			Watch* w = watch(c);
			until_told(c, w, hows[how]);
			mon::count("watched_meanwhile");
		} else if (order == 4) {                   // removed about when it happens
			c->step = "removed about when it hangs up";
			Watch* w = watch(c);
			tell(c, HALF + how, 0, r.below(1500));
			pause_(c, 2);
			bool told = w->told;
			unwatch(c, w);
			mon::count(told ? "removed_after_told" : "removed_before_told");
			while (!mon_load32(&c->hung)) kfiber_msleep(1);
			pause_(c, 3);
			if (r.chance(1, 2)) { Watch* v = watch(c); until_told(c, v, hows[how]); mon::count("watched_after_removal"); }
		} else {                                   // nobody looks; told by the end of the data
			c->step = "not watched";
			tell(c, HALF + how, 0, r.below(1500));
		}
		if (readable) {
			if (last) read_n(c, last, true);
			char b[10];
			int got = kfiber_net_read(c->cn, b, sizeof b);
			MON_CHECK(got <= 0, "hup.bytes", "%d bytes follow the last ones", got);
			mon::count("read_to_the_end");
			if (r.chance(1, 3)) { Watch* v = watch(c); until_told(c, v, "after the end was read"); mon::count("watched_after_end"); }
		}
	}
	tell(c, QUIT);
	for (Watch* w : c->watches) if (w->active) unwatch(c, w);
	bool later = r.chance(1, 2);
	if (later && !at_end) kfiber_msleep(2);
	kfiber_net_close(c->cn);
	while (mon_load32(&c->done) != 2) kfiber_msleep(1);
	pthread_join(pt, NULL);
	return 0;
}
static std::vector<Cn*> current;
static void hang_info(char* b, size_t n) {
	size_t k = 0;
	for (Cn* c : current) if (mon_load32(&c->done) != 2 && k < n) k += snprintf(b + k, n - k, "connection %d kind %d: %s, hung %d acks %d; ", c->id, c->kind, c->step, c->hung, c->acks);
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C27");
	mon::watchdog(mon::iarg("watchdog", 25));
	mon::on_hang = hang_info;
	signal(SIGPIPE, SIG_IGN);
	kx::loop4();
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	Rng R(mon::seed * 23 + 7);
	int conc = mon::iarg("conc", 10), fds = wrap::open_fds();
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("connections %d..%d", base, base + n - 1);
		current.clear();
		for (int i = 0; i < n; i++) {
			Cn* c = new Cn;
			c->id = base + i; c->kind = R.below(3);
			c->r = Rng(mon::hash(mon::seed, 9000 + c->id));
			int f[2];
			if (c->kind == PAIR) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) mon::harness_error("socketpair"); }
			else {
				sockaddr_in a;
				memset(&a, 0, sizeof a);
				a.sin_family = AF_INET;
				inet_pton(AF_INET, kx::loop4(), &a.sin_addr);
				socklen_t l = sizeof a;
				int ls = socket(AF_INET, SOCK_STREAM, 0);
				if (bind(ls, (sockaddr*)&a, l) || listen(ls, 5) || getsockname(ls, (sockaddr*)&a, &l)) mon::harness_error("listen");
				if (c->kind == CONNECTED) { f[0] = -1; f[1] = ls; }
				else {
					f[0] = socket(AF_INET, SOCK_STREAM, 0);
					if (connect(f[0], (sockaddr*)&a, l)) mon::harness_error("connect");
					f[1] = accept(ls, NULL, NULL);
					close(ls);
				}
			}
			c->peer = f[1];
			if (c->kind != CONNECTED) {
				fcntl(f[0], F_SETFL, fcntl(f[0], F_GETFL) | O_NONBLOCK);
				c->cn = kconnection_new(NULL);
				c->cn->st.fd = f[0];
			}
			current.push_back(c);
		}
		volatile int done = 0;
		for (Cn* c : current) kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [c](int) { return life(c); }, &done);
		kx::wait_done(&done, n);
		for (int i = 0; i < 200 && wrap::open_fds() != fds; i++) mon::real_usleep(500);
		MON_CHECK(wrap::open_fds() == fds, "hup.descriptors", "%d descriptors are open after a round, %d before", wrap::open_fds(), fds);
		for (Cn* c : current) {
			mon::cover(c->sig);
			mon::eval();
			for (Watch* w : c->watches) delete w;
			delete c;
		}
	}
	kx::wait_fiber_count(0);
	mon::finish();
}
