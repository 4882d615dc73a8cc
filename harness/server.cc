// Servers and connecting (C14): open, bind failures, accept, connect, close, reopen, release.
#include "net.h"
#include <sys/stat.h>
#include <netdb.h>
using namespace net;

enum { V4, V6, UN };
enum { OPEN, EXIST, FIBER };
struct Srv;
struct Cli {                       // one client connection of the workload
	Srv* s; uint64_t id; int kind, binds; Rng r;
	volatile int delivered, connected, ok, started, must;
	Cli() : s(NULL), id(0), kind(0), binds(0), r(1), delivered(0), connected(0), ok(0), started(0), must(0) {}
};
enum { PING = 0, MUTE = 1, LINGER = 2 };
struct Srv {
	int id, family, style;
	kserver* k;
	Rng r;
	char path[108];
	sockaddr_storage at; socklen_t at_len;     // where it listens
	volatile int accepted, live, freed, gone_fibers, released, closer_in_accept, linger_go;
	Srv() : id(0), family(0), style(0), k(NULL), r(1), at_len(0), accepted(0), live(0), freed(0), gone_fibers(0), released(0), closer_in_accept(0), linger_go(0) { path[0] = 0; memset(&at, 0, sizeof at); }
};
struct Hello { uint64_t magic, id; int32_t kind, named; sockaddr_storage me, peer; };
static const uint64_t MAGIC = 0x6b61737365727665ull;
static SpinLock tab_lk;
static std::map<uint64_t, Cli*> tab;
static volatile int64_t next_id;

static void free_opaque(KOPAQUE p) {
	Srv* s = (Srv*)p;
	int was = mon_fetch_add32(&s->freed, 1);
	MON_CHECK(was == 0, "server.freed_twice", "a server's data was freed %d times", was + 1);
	MON_CHECK(mon_load32(&s->live) == 0, "server.freed_early", "a server was freed while %d of its connections are in use", mon_load32(&s->live));
	MON_CHECK(mon_load32(&s->released), "server.freed_early", "a server was freed although its owner has not released it");
	mon::count("servers_freed");
	mon::progress();
}
static std::string show(const sockaddr_storage* a) {
	char b[200], ip[64] = "";
	if (a->ss_family == AF_INET) { inet_ntop(AF_INET, &((sockaddr_in*)a)->sin_addr, ip, sizeof ip); snprintf(b, sizeof b, "%s:%d", ip, ntohs(((sockaddr_in*)a)->sin_port)); }
	else if (a->ss_family == AF_INET6) { inet_ntop(AF_INET6, &((sockaddr_in6*)a)->sin6_addr, ip, sizeof ip); snprintf(b, sizeof b, "[%s]:%d", ip, ntohs(((sockaddr_in6*)a)->sin6_port)); }
	else if (a->ss_family == AF_UNIX) snprintf(b, sizeof b, "unix '%.108s'", ((sockaddr_un*)a)->sun_path);
	else snprintf(b, sizeof b, "family %d", a->ss_family);
	return b;
}
static bool same(const sockaddr_storage* a, const sockaddr_storage* b) {
	if (a->ss_family != b->ss_family) return false;
	if (a->ss_family == AF_INET) return ((sockaddr_in*)a)->sin_port == ((sockaddr_in*)b)->sin_port && ((sockaddr_in*)a)->sin_addr.s_addr == ((sockaddr_in*)b)->sin_addr.s_addr;
	if (a->ss_family == AF_INET6) return ((sockaddr_in6*)a)->sin6_port == ((sockaddr_in6*)b)->sin6_port && !memcmp(&((sockaddr_in6*)a)->sin6_addr, &((sockaddr_in6*)b)->sin6_addr, 16);
	return !strncmp(((sockaddr_un*)a)->sun_path, ((sockaddr_un*)b)->sun_path, 108);
}
// ---- the accepting side --------------------------------------------------------------------
static bool my_loop_ok() { return kx::my_loop() >= 0; }
static int serve(void* arg, int) {
	kconnection* cn = (kconnection*)arg;
	Srv* s = (Srv*)kserver_get_opaque(cn->server);
	MON_CHECK(cn->st.base.selector == kgl_get_tls_selector() && my_loop_ok(), "accept.loop", "a connection was handed over on another thread than its event loop's");
	Hello h;
	memset(&h, 0, sizeof h);
	int len = sizeof h;
	if (!kfiber_net_read_full(cn, (char*)&h, &len)) {
		mon::count("served_mute");
		MON_CHECK(len == (int)sizeof h, "server.hello", "a connection ended in the middle of its first message (%d bytes missing)", len);
		goto out;
	}
	{
		MON_CHECK(h.magic == MAGIC, "server.hello", "the first bytes of a connection are wrong");
		Cli* c = NULL;
		{ SpinGuard g(tab_lk); auto it = tab.find(h.id); if (it != tab.end()) c = it->second; }
		if (!c) { mon::violation("server.hello", "an unknown client id arrived"); goto out; }
		MON_CHECK(c->s == s, "server.wrong", "a connection to server %d arrived at server %d", c->s->id, s->id);
		int was = mon_fetch_add32(&c->delivered, 1);
		MON_CHECK(was == 0, "accept.twice", "one connection was delivered %d times", was + 1);
		// addresses
		sockaddr_storage from, self;
		memset(&from, 0, sizeof from); memset(&self, 0, sizeof self);
		if (s->family == UN) {
			MON_CHECK(cn->addr.u.sin_family == PF_UNIX && cn->addr.u.addr, "accept.peer", "a unix connection carries family %d", cn->addr.u.sin_family);
			memcpy(&from, cn->addr.u.addr, std::min((size_t)cn->addr.u.size, sizeof from));
			from.ss_family = AF_UNIX;
		} else memcpy(&from, &cn->addr, sizeof cn->addr);
		MON_CHECK(same(&from, &h.me), "accept.peer", "the peer address is given as %s, the client is %s", show(&from).c_str(), show(&h.me).c_str());
		if (s->family != UN) {
			sockaddr_i a;
			memset(&a, 0, sizeof a);
			MON_CHECK(kconnection_self_addr(cn, &a) == 0, "accept.self", "no local address");
			memcpy(&self, &a, sizeof a);
			MON_CHECK(same(&self, &h.peer), "accept.self", "the local address is given as %s, the client connected to %s", show(&self).c_str(), show(&h.peer).c_str());
			mon::count("addresses_checked");
		} else if (h.named) mon::count("unix_names_checked");
		uint64_t reply = h.id * 2654435761u + 1;
		len = sizeof reply;
		bool ok = kfiber_net_write_full(cn, (char*)&reply, &len);
		MON_CHECK(ok, "server.reply", "the reply to a waiting client could not be written");
		while (ok) {              // further pings, until the client leaves
			uint64_t v = 0;
			len = sizeof v;
			if (!kfiber_net_read_full(cn, (char*)&v, &len)) break;
			MON_CHECK(mon_load32(&s->freed) == 0, "server.freed_early", "a server was freed under one of its connections");
			v ^= reply;
			len = sizeof v;
			ok = kfiber_net_write_full(cn, (char*)&v, &len);
			mon::count("late_pings");
		}
	}
out:
	mon_fetch_add32(&s->live, -1);
	kfiber_net_close(cn);
	mon::progress();
	return 0;
}
static void delivered(Srv* s, kconnection* cn) {
	MON_CHECK(mon_load32(&s->freed) == 0, "server.freed_early", "a freed server delivers a connection");
	mon_fetch_add32(&s->live, 1);
	mon_fetch_add32(&s->accepted, 1);
	mon::count("accepted");
	if (kfiber_create(serve, cn, 0, 0, NULL) != 0) mon::harness_error("kfiber_create");
}
static kev_result on_accept(KOPAQUE data, void* arg, int got);
KACCEPT_CALLBACK(on_accept) {
	kconnection* cn = (kconnection*)arg;
	Srv* s = (Srv*)kserver_get_opaque(cn->server);
	delivered(s, cn);
	if (mon_load32(&s->closer_in_accept) == 1 && __sync_bool_compare_and_swap(&s->closer_in_accept, 1, 2)) {
		mon::count("closed_in_accept");
		kserver_close(cn->server);
		mon_store32(&s->closer_in_accept, 3);
	}
	return kev_ok;
}
// accept loop of a fiber
static void accept_fiber(Srv* s, kserver_selectable* ss) {
	for (;;) {
		kconnection* cn = NULL;
		int rc = kfiber_net_accept(ss, &cn);
		if (rc != 0 || !cn) break;
		mon::count("fiber_accepts");
		delivered(s, cn);
	}
	kserver_selectable_destroy(ss);
	mon_fetch_add32(&s->gone_fibers, 1);
}
// A listener fails just while its server is closed: an accept under way waits for kserver_close,
// then fails. 1: an accept is to wait, 2: it waits, 3: fails at once
static const int FDS = 4096;
static volatile int failing[FDS];
static void fd_gone(int fd) { if (fd >= 0 && fd < FDS) mon_store32(&failing[fd], 0); }
// would block although a connection is waiting
static bool accept_again(int fd, int* err) {
	if (fd >= 0 && fd < FDS && mon_load32(&failing[fd])) {
		if (__sync_bool_compare_and_swap(&failing[fd], 1, 2)) {
			for (int i = 0; i < 400 && mon_load32(&failing[fd]) == 2; i++) mon::real_usleep(100);
			mon::count("failed_while_closing");
		}
		*err = EMFILE;
		mon::count("injected.accept_fails");
		return true;
	}
	if ((int)(xr() % 100) >= again_num) return false;
	*err = EAGAIN;
	mon::count("injected.accept_again");
	wrap::rearm(fd);
	return true;
}
// ---- clients -------------------------------------------------------------------------------
static Cli* new_cli(Srv* s, Rng& r, bool must) {
	Cli* c = new Cli;
	c->s = s; c->id = (uint64_t)mon_fetch_add(&next_id, 1) + 1;
	c->r = Rng(mon::hash(mon::hash(mon::seed, s->id), c->id * 77));
	int k = r.below(10);
	c->kind = k < 6 ? PING : k < 8 ? MUTE : LINGER;
	c->binds = r.chance(1, 3);
	c->must = must;
	SpinGuard g(tab_lk);
	tab[c->id] = c;
	return c;
}
static void hello(Cli* c, int fd, Hello* h) {
	memset(h, 0, sizeof *h);
	h->magic = MAGIC; h->id = c->id; h->kind = c->kind; h->named = c->binds;
	socklen_t l = sizeof h->me;
	if (getsockname(fd, (sockaddr*)&h->me, &l)) mon::harness_error("getsockname");
	if (c->s->family == UN && l <= 2) memset(((sockaddr_un*)&h->me)->sun_path, 0, 108);
	l = sizeof h->peer;
	getpeername(fd, (sockaddr*)&h->peer, &l);
}
static void bind_source(Cli* c, sockaddr_storage* b, socklen_t* len) {
	memset(b, 0, sizeof *b);
	if (c->s->family == V4) {
		sockaddr_in* a = (sockaddr_in*)b;
		a->sin_family = AF_INET; *len = sizeof *a;
		a->sin_addr.s_addr = htonl(0x7f000000u | (1 + c->r.below(200)) << 16 | c->r.below(250) << 8 | (1 + c->r.below(250)));
	} else if (c->s->family == V6) {
		sockaddr_in6* a = (sockaddr_in6*)b;
		a->sin6_family = AF_INET6; *len = sizeof *a; a->sin6_addr = in6addr_loopback;
	} else {
		sockaddr_un* a = (sockaddr_un*)b;
		a->sun_family = AF_UNIX; *len = sizeof *a;
		snprintf(a->sun_path, sizeof a->sun_path, "%s/%s%d.%d", tmpdir().c_str(), c->r.chance(1, 2) ? "c" : "a-client-with-a-longer-name", c->s->id, (int)c->id);
	}
}
static void outcome(Cli* c, bool ok, const char* how) {
	if (ok) { mon_store32(&c->ok, 1); mon::count("clients_served"); return; }
	if (mon_load32(&c->delivered)) mon::violation("conn.dropped", "a delivered connection broke before its exchange was over (%s)", how);
	else if (c->must) mon::violation("conn.lost", "a connection to an open server failed (%s)", how);
	else mon::count("clients_refused_or_reset");
}
static int kasync_client(Cli* c) {
	Srv* s = c->s;
	kconnection* cn = kconnection_new((sockaddr_i*)&s->at);
	sockaddr_storage b; socklen_t bl;
	bool bound = c->binds && s->family != UN && !(s->family == V6 && c->must);   // the ports of ::1 may run out
	c->binds = bound;
	if (bound) bind_source(c, &b, &bl);
	int rc = kfiber_net_connect(cn, bound ? (sockaddr_i*)&b : NULL, 0);
	mon::count(rc == 0 ? "kasync_connects" : "kasync_connect_failures");
	if (rc != 0) {
		MON_CHECK(rc == -1, "connect.result", "connect returned %d", rc);
		outcome(c, false, "connect");
		kfiber_net_close(cn);
		return 0;
	}
	mon_store32(&c->connected, 1);
	Hello h;
	hello(c, cn->st.fd, &h);
	MON_CHECK(same(&h.peer, &s->at) || s->family == UN || (h.peer.ss_family == 0 && !c->must), "connect.peer", "connected to %s instead of %s", show(&h.peer).c_str(), show(&s->at).c_str());
	if (bound) {
		MON_CHECK(s->family == V6 || ((sockaddr_in*)&h.me)->sin_addr.s_addr == ((sockaddr_in*)&b)->sin_addr.s_addr, "connect.bind", "the connection does not come from the address it was bound to");
		mon::count("bound_connects");
	}
	if (c->kind == MUTE) { mon_store32(&c->ok, 1); kfiber_net_close(cn); return 0; }
	int len = sizeof h;
	bool ok = kfiber_net_write_full(cn, (char*)&h, &len);
	const char* how = "write";
	uint64_t v = 0, want = c->id * 2654435761u + 1;
	len = sizeof v;
	if (ok) { how = "read"; ok = kfiber_net_read_full(cn, (char*)&v, &len); }
	if (ok && v != want) mon::violation("conn.reply", "the reply is for another client");
	if (ok && c->kind == LINGER) {
		int n = c->r.below(4);
		for (int i = 0; ok && i < n + 1; i++) {
			// past the end of the server, when that comes
			for (int t = 0; i == n && t < 400 && !mon_load32(&s->linger_go); t++) kfiber_msleep(2);
			uint64_t p = c->r.next();
			v = p; len = sizeof v;
			how = "late ping";
			ok = kfiber_net_write_full(cn, (char*)&v, &len);
			len = sizeof v; v = 0;
			ok = ok && kfiber_net_read_full(cn, (char*)&v, &len);
			if (ok && v != (p ^ want)) mon::violation("conn.reply", "a later reply is wrong");
		}
		mon::count("lingering_clients");
	}
	outcome(c, ok, how);
	kfiber_net_close(cn);
	return 0;
}
static bool put(int fd, const void* b, size_t n) { return sendto(fd, b, n, MSG_NOSIGNAL, NULL, 0) == (ssize_t)n; }
static bool get(int fd, void* b, size_t n) { return recvfrom(fd, b, n, MSG_WAITALL, NULL, NULL) == (ssize_t)n; }
static void raw_client(Cli* c) {
	Srv* s = c->s;
	int fd = socket(s->at.ss_family, SOCK_STREAM, 0);
	if (fd < 0) mon::harness_error("socket");
	sockaddr_storage b; socklen_t bl = 0;
	if (c->binds) {
		bind_source(c, &b, &bl);
		if (bind(fd, (sockaddr*)&b, bl) && (s->family != V6 || errno != EADDRINUSE)) mon::harness_error("bind of a raw client: %s", strerror(errno));
	}
	if (connect(fd, (sockaddr*)&s->at, s->at_len) != 0) {
		outcome(c, false, "raw connect");
		mon::count("raw_connect_failures");
	} else {
		mon::count("raw_connects");
		mon_store32(&c->connected, 1);
		if (c->kind == MUTE) mon_store32(&c->ok, 1);
		else {
			Hello h;
			hello(c, fd, &h);
			uint64_t v = 0, want = c->id * 2654435761u + 1;
			bool ok = put(fd, &h, sizeof h) && get(fd, &v, sizeof v);
			if (ok && v != want) mon::violation("conn.reply", "the reply is for another client");
			if (ok && c->kind == LINGER) {
				for (int t = 0; t < 200 && !mon_load32(&s->linger_go); t++) mon::real_usleep(1000);
				uint64_t p = c->r.next();
				v = 0;
				ok = put(fd, &p, sizeof p) && get(fd, &v, sizeof v);
				if (ok && v != (p ^ want)) mon::violation("conn.reply", "a later reply is wrong");
			}
			outcome(c, ok, "raw");
		}
	}
	if (c->binds && s->family == UN) unlink(((sockaddr_un*)&b)->sun_path);
	close(fd);
}
// ---- the life of one server ----------------------------------------------------------------
static int raw_listener(const sockaddr_storage* a, socklen_t len, bool reuseport) {
	int fd = socket(a->ss_family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0), one = 1;
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (reuseport) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one);
	if (bind(fd, (sockaddr*)a, len) || listen(fd, 100)) { int e = errno; close(fd); errno = e; return -1; }
	return fd;
}
// does a socket of this process listen there?
static bool ours_listens(const sockaddr_storage* a) {
	for (int fd = 3; fd < 4096; fd++) {
		int on = 0;
		socklen_t l = sizeof on;
		sockaddr_storage x;
		if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) || !on) continue;
		l = sizeof x;
		if (getsockname(fd, (sockaddr*)&x, &l) == 0 && x.ss_family == a->ss_family && ((sockaddr_in*)&x)->sin_port == ((sockaddr_in*)a)->sin_port) return true;
	}
	return false;
}
static void on_loop(Rng& r, std::function<void()> fn) {
	static __thread int dummy; (void)dummy;
	volatile int done = 0;
	kx::spawn(get_selector_by_index(r.below(kx::n_loops)), [fn](int) { fn(); return 0; }, &done);
	kx::wait_done(&done, 1);
}
static int listeners(Srv* s) {
	int n = 0;
	kgl_list* p;
	kmutex_lock(&s->k->ss_lock);
	klist_foreach(p, &s->k->ss) n++;
	kmutex_unlock(&s->k->ss_lock);
	return n;
}
static void where(Srv* s) {
	if (s->family == UN) { sockaddr_un* u = (sockaddr_un*)&s->at; memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; strcpy(u->sun_path, s->path); s->at_len = sizeof *u; }
	else { memcpy(&s->at, &s->k->addr, sizeof s->k->addr); s->at_len = s->family == V4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); }
}
static bool path_there(Srv* s) { struct stat st; return lstat(s->path, &st) == 0; }
static void open_it(Srv* s) {
	const char* how = "";
	int fibers = 0;
	if (s->style == OPEN) {
		how = "kserver_open";
		bool ok = false;
		if (s->r.chance(1, 2)) ok = kserver_open(s->k, 0, on_accept);
		else { bool* p = &ok; on_loop(s->r, [s, p] { *p = kserver_open(s->k, 0, on_accept); }); }
		MON_CHECK(ok, "server.open", "a server could not be opened");
		// every loop has its listener, unless it was closed again by an eager client
	} else if (s->style == EXIST) {
		how = "kserver_open_exsit";
		bool ok = false, *p = &ok;
		if (s->r.chance(1, 4)) {   // an address of another family is forgotten
			MON_CHECK(kserver_bind(s->k, s->family == UN ? kx::loop4() : (tmpdir() + "/elsewhere").c_str(), 0, NULL), "server.bind", "kserver_bind failed");
			mon::count("rebound");
		}
		on_loop(s->r, [s, p] {
			sockaddr_storage a = s->at;
			if (s->family == UN) unlink(s->path);
			int fd = raw_listener(&a, s->at_len, true);
			if (fd < 0) mon::harness_error("raw listener: %s", strerror(errno));
			*p = kserver_open_exsit(s->k, fd, on_accept);
		});
		MON_CHECK(ok, "server.open", "a listening socket could not be taken over");
	} else {
		how = "kfiber_net_listen";
		fibers = 1 + (s->family != UN ? s->r.below(kx::n_loops) : 0);
		for (int i = 0; i < fibers; i++) {
			volatile int up = 0, *u = &up;
			kx::spawn(get_selector_by_index(i), [s, u](int) {
				kserver_selectable* ss = NULL;
				int rc = kfiber_net_listen(s->k, 0, &ss);
				MON_CHECK(rc == 0 && ss, "server.open", "kfiber_net_listen failed");
				kx::signal_done(u);
				if (ss) accept_fiber(s, ss);
				return 0;
			});
			kx::wait_done(&up, 1);
		}
	}
	MON_CHECK(kserver_test_flag(s->k, KGL_SERVER_START), "server.flag", "a server opened with %s is not marked as open", how);
	MON_CHECK(kserver_test_flag(s->k, KGL_SERVER_UNIX) == (s->family == UN ? KGL_SERVER_UNIX : 0), "server.flag", "the unix mark of a server opened with %s is wrong", how);
	where(s);
	mon::count("opened");
	if (s->family == UN) MON_CHECK(path_there(s), "server.path", "an open unix server has no path");
	else MON_CHECK(ksocket_addr_port(&s->k->addr) != 0, "server.port", "the port of an open server is not known");
}
// clients of all kinds at once; returns when they are done
static void traffic(Srv* s, int n, bool must, std::vector<Cli*>* all, volatile int* done) {
	std::vector<Cli*> raw;
	for (int i = 0; i < n; i++) {
		Cli* c = new_cli(s, s->r, must);
		all->push_back(c);
		if (s->r.chance(2, 3)) kx::spawn(get_selector_by_index(s->r.below(kx::n_loops)), [c](int) { return kasync_client(c); }, done);
		else raw.push_back(c);
	}
	struct RawBatch { std::vector<Cli*> v; volatile int* done; };
	RawBatch* b = new RawBatch{ raw, done };
	pthread_t t;
	if (pthread_create(&t, NULL, [](void* p) -> void* {
		RawBatch* b = (RawBatch*)p;
		for (Cli* c : b->v) { raw_client(c); kx::signal_done(b->done); mon::progress(); }
		delete b;
		return NULL;
	}, b)) mon::harness_error("thread");
	pthread_detach(t);
}
static void refused(Srv* s) {
	int rc = 0, *p = &rc;
	on_loop(s->r, [s, p] {
		kconnection* cn = kconnection_new((sockaddr_i*)&s->at);
		*p = kfiber_net_connect(cn, NULL, 0);
		kfiber_net_close(cn);
	});
	MON_CHECK(rc == -1, "connect.refused", "connecting to a closed server returned %d", rc);
	mon::count("refused_connects");
}
static void close_it(Srv* s) {
	int how = s->r.below(3);
	if (s->r.chance(1, 3)) {
		std::vector<int> fds;
		kgl_list* p;
		kmutex_lock(&s->k->ss_lock);
		klist_foreach(p, &s->k->ss) {
			int fd = (kgl_list_data(p, kserver_selectable, queue))->st.fd;
			if (fd >= 0 && fd < FDS) { fds.push_back(fd); mon_store32(&failing[fd], 1); }
		}
		kmutex_unlock(&s->k->ss_lock);
		bool hit = false;
		// (the clients may come after all listeners are gone)
		for (int t = 0; t < 30 && !hit; t++) { for (int fd : fds) hit = hit || mon_load32(&failing[fd]) == 2; mon::real_usleep(100); }
		kserver_close(s->k);
		for (int fd : fds) { __sync_bool_compare_and_swap(&failing[fd], 1, 3); __sync_bool_compare_and_swap(&failing[fd], 2, 3); }
		mon::count("closed_while_failing");
		return;
	}
	if (how == 0 && s->style != FIBER && mon_load32(&s->closer_in_accept) == 0) {
		// the next delivered connection closes it (if one comes)
		mon_store32(&s->closer_in_accept, 1);
		for (int t = 0; t < 20 && mon_load32(&s->closer_in_accept) == 1; t++) mon::real_usleep(500);
		if (!__sync_bool_compare_and_swap(&s->closer_in_accept, 1, 0)) { mon::wait_ge(&s->closer_in_accept, 3); return; }
	}
	if (how == 1) on_loop(s->r, [s] { kserver_close(s->k); });
	else kserver_close(s->k);
}
static void flush_loops() {
	volatile int n = 0, *p = &n;
	for (int i = 0; i < kx::n_loops; i++) kx::post(get_selector_by_index(i), [p] { kx::signal_done(p); });
	kx::wait_done(&n, kx::n_loops);
}
static void wait_traffic(volatile int* done, int n) { kx::wait_done(done, n); }
static void life(Srv* s) {
	Rng& r = s->r;
	s->k = kserver_init();
	kserver_set_opaque(s->k, free_opaque, s);
	if (s->family == UN) snprintf(s->path, sizeof s->path, "%s/%s.%d", tmpdir().c_str(), r.chance(1, 2) ? "s" : "a-server-path-that-is-longer-than-an-address", s->id);
	if (r.chance(1, 6)) MON_CHECK(!kserver_bind(s->k, "no.such.address", 80, NULL), "server.bind", "binding to nonsense succeeded");
	if (r.chance(1, 6)) {
		std::string p = tmpdir() + "/";
		p.resize(108 + r.below(3) * r.below(60), 'p');
		MON_CHECK(!kserver_bind(s->k, p.c_str(), 0, NULL), "server.bind", "binding to a path of %zu bytes, which no unix address can hold, succeeded", p.size());
		mon::count("long_paths");
	}
	if (s->family != UN && r.chance(1, 5)) {   // changes its mind
		MON_CHECK(kserver_bind(s->k, (tmpdir() + "/elsewhere").c_str(), 0, NULL) && kserver_test_flag(s->k, KGL_SERVER_UNIX), "server.flag", "a server bound to a path is not marked as a unix one");
		mon::count("rebound");
	}
	MON_CHECK(kserver_bind(s->k, s->family == V4 ? kx::loop4() : s->family == V6 ? "::1" : s->path, s->family == V6 ? kx::port6() : 0, NULL), "server.bind", "kserver_bind failed");
	MON_CHECK(kserver_test_flag(s->k, KGL_SERVER_UNIX) == (s->family == UN ? KGL_SERVER_UNIX : 0), "server.flag", "the unix mark of a server is wrong");
	if (s->family == UN && r.chance(1, 4)) {   // a stale socket lies there
		where(s);
		int fd = raw_listener(&s->at, s->at_len, false);
		if (fd >= 0) close(fd);
	}
	where(s);
	std::vector<Cli*> all;
	uint64_t sig = mon::hash(mon::hash(s->family, s->style), kx::n_loops);
	int epochs = 1 + r.below(3);
	bool old_ones = false;
	for (int e = 0; e < epochs && !mon::violated(); e++) {
		open_it(s);
		volatile int done = 0;
		int started = 0;
		if (r.chance(3, 4)) {      // undisturbed
			int n = 1 + r.below(10);
			int acc0 = mon_load32(&s->accepted);
			mon_store32(&s->linger_go, 1);
			traffic(s, n, true, &all, &done);
			wait_traffic(&done, started += n);
			mon_store32(&s->linger_go, 0);
			mon::wait_ge(&s->accepted, acc0 + n);
			flush_loops(); flush_loops();
			MON_CHECK(old_ones || mon_load32(&s->accepted) == acc0 + n, "accept.count", "%d connections were made and %d delivered", n, mon_load32(&s->accepted) - acc0);
			mon::count("quiet_connections", n);
			if (s->style == OPEN && !old_ones) MON_CHECK(listeners(s) == kx::n_loops, "server.listeners", "%d listeners for %d loops", listeners(s), kx::n_loops);
			sig = mon::hash(sig, n);
		}
		bool last = e == epochs - 1;
		int n = r.below(3) ? 1 + r.below(12) : 0;
		mon_store32(&s->closer_in_accept, 0);
		traffic(s, n, false, &all, &done);
		started += n;
		int wait = r.below(4) ? r.below(1500) : 0;
		if (wait) mon::real_usleep(wait);
		bool again = !last && s->style == OPEN && r.chance(1, 2);
		bool quick_release = last && r.chance(1, 2);
		if (quick_release) { kserver_refs(s->k); }
		close_it(s);
		mon::count("closed");
		if (s->family == UN) MON_CHECK(!path_there(s), "server.path", "the path of a closed unix server is still there");
		if (quick_release) {       // released with everything still under way
			mon_store32(&s->released, 1);
			kserver_release(s->k);
			kserver_release(s->k);
			mon::count("released_at_once");
			if (r.chance(1, 2)) mon::real_usleep(r.below(2000));
			mon_store32(&s->linger_go, 1);
			wait_traffic(&done, started);
			sig = mon::hash(sig, 7);
			break;
		}
		if (again) {               // reopened while the old listeners may still be around
			mon::count("reopened_at_once");
			old_ones = true;
			mon_store32(&s->linger_go, 1);
			wait_traffic(&done, started);
			sig = mon::hash(sig, 9);
			continue;
		}
		while (listeners(s)) mon::real_usleep(300);
		old_ones = false;
		mon::progress();
		flush_loops(); flush_loops();    // connections accepted before may be on their way to their loop
		int acc = mon_load32(&s->accepted);
		refused(s);
		mon_store32(&s->linger_go, 1);
		wait_traffic(&done, started);
		MON_CHECK(mon_load32(&s->accepted) == acc, "accept.after_close", "a closed server delivered a connection (server %d, family %d, style %d, %d then %d)", s->id, s->family, s->style, acc, mon_load32(&s->accepted));
		if (r.chance(1, 2)) while (mon_load32(&s->live)) mon::real_usleep(300);
		sig = mon::hash(sig, 11);
		if (last) {
			mon_store32(&s->released, 1);
			kserver_release(s->k);
		}
	}
	// everything is let go: freed once all of it is
	if (mon::violated()) return;
	while (!mon_load32(&s->freed)) mon::real_usleep(300);
	MON_CHECK(mon_load32(&s->live) == 0, "server.freed_early", "freed with %d connections", mon_load32(&s->live));
	if (s->family == UN) MON_CHECK(!path_there(s), "server.path", "the path of a freed unix server is still there");
	int fd = raw_listener(&s->at, s->at_len, false);
	if (fd < 0 && errno == EADDRINUSE && s->family == V6 && !ours_listens(&s->at)) mon::count("address_taken_by_others");
	else MON_CHECK(fd >= 0, "server.address", "the address %s of a freed server cannot be used again: %s", show(&s->at).c_str(), strerror(errno));
	if (fd >= 0) { close(fd); if (s->family == UN) unlink(s->path); mon::count("addresses_reused"); }
	uint64_t served = 0;
	for (Cli* c : all) {
		MON_CHECK(mon_load32(&c->delivered) <= 1, "accept.twice", "a connection was delivered %d times", c->delivered);
		if (c->must && c->kind != MUTE) MON_CHECK(c->delivered == 1 && c->ok, "conn.lost", "a connection to an open server was not served");
		served += c->ok;
		{ SpinGuard g(tab_lk); tab.erase(c->id); }
	}
	mon::cover(mon::hash(sig, served));
	mon::eval();
	mon::progress();
}
static std::vector<Srv*> current;
static void hang_info(char* b, size_t n) {
	size_t k = 0;
	for (Srv* s : current) if (!mon_load32(&s->freed) && k < n)
		k += snprintf(b + k, n - k, "server %d family %d style %d: accepted %d live %d released %d refs %d closer %d; ", s->id, s->family, s->style, s->accepted, s->live, s->released, s->k ? (int)s->k->refs : -1, s->closer_in_accept);
}
static void mode_server() {
	mon::on_hang = hang_info;
	signal(SIGPIPE, SIG_IGN);
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	Rng R(mon::seed * 17 + 5);
	wrap::hooks.accept_fault = accept_again;
	wrap::hooks.close_hook = fd_gone;
	int conc = mon::iarg("conc", 4);
	int fds = wrap::open_fds();
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("servers %d..%d", base, base + n - 1);
		std::vector<pthread_t> t;
		current.clear();
		for (int i = 0; i < n; i++) {
			Srv* s = new Srv;
			s->id = base + i;
			{ int f = R.below(8); s->family = f < 4 ? V4 : f < 7 ? UN : V6; } s->style = R.below(5) < 3 ? OPEN : R.chance(1, 2) ? EXIST : FIBER;
			s->r = Rng(mon::hash(mon::seed, 5000 + s->id));
			current.push_back(s);
		}
		for (Srv* s : current) {
			pthread_t x;
			if (pthread_create(&x, NULL, [](void* p) -> void* { life((Srv*)p); return NULL; }, s)) mon::harness_error("thread");
			t.push_back(x);
		}
		for (pthread_t x : t) pthread_join(x, NULL);
		if (mon::violated()) break;
		kx::wait_fiber_count(0);
		for (int i = 0; i < 200 && wrap::open_fds() != fds; i++) mon::real_usleep(500);
		int now = wrap::open_fds();
		MON_CHECK(now == fds, "server.descriptors", "%d descriptors are open after a round, %d before: %s", now, fds, wrap::fd_list().c_str());
		for (Srv* s : current) { MON_CHECK(s->freed == 1, "server.freed_twice", "freed %d times", s->freed); delete s; }
	}
}
// ---- an address in use ---------------------------------------------------------------------
static void mode_bindfail() {
	signal(SIGPIPE, SIG_IGN);
	kx::loops_start(2);
	Rng R(mon::seed * 3 + 1);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		mon::set_case("address in use %d", i);
		Srv* s = new Srv;
		s->family = i % 2 ? V6 : V4;
		s->r = Rng(mon::hash(mon::seed, i));
		memset(&s->at, 0, sizeof s->at);
		if (s->family == V4) { sockaddr_in* a = (sockaddr_in*)&s->at; a->sin_family = AF_INET; inet_pton(AF_INET, kx::loop4(), &a->sin_addr); s->at_len = sizeof *a; }
		else { sockaddr_in6* a = (sockaddr_in6*)&s->at; a->sin6_family = AF_INET6; a->sin6_addr = in6addr_loopback; a->sin6_port = htons(kx::port6()); s->at_len = sizeof *a; }
		int fd = raw_listener(&s->at, s->at_len, false);
		socklen_t l = sizeof s->at;
		getsockname(fd, (sockaddr*)&s->at, &l);
		int fds = wrap::open_fds();
		s->k = kserver_init();
		kserver_set_opaque(s->k, free_opaque, s);
		uint16_t port = ntohs(((sockaddr_in*)&s->at)->sin_port);
		MON_CHECK(kserver_bind(s->k, s->family == V4 ? kx::loop4() : "::1", port, NULL), "server.bind", "kserver_bind failed");
		bool ok = true, *p = &ok;
		if (R.chance(1, 2)) ok = kserver_open(s->k, 0, on_accept);
		else on_loop(s->r, [s, p] { *p = kserver_open(s->k, 0, on_accept); });
		MON_CHECK(!ok, "server.busy", "a server was opened on an address in use");
		MON_CHECK(!kserver_test_flag(s->k, KGL_SERVER_START), "server.busy", "a server that could not be opened is marked as open");
		MON_CHECK(listeners(s) == 0, "server.busy", "a failed open leaves %d listeners", listeners(s));
		MON_CHECK(wrap::open_fds() == fds, "server.busy", "a failed open leaves descriptors: %s", wrap::fd_list().c_str());
		on_loop(s->r, [s] { kserver_selectable* ss = (kserver_selectable*)1; kfiber_net_listen(s->k, 0, &ss); MON_CHECK(ss == NULL, "server.busy", "a fiber listens on an address in use"); });
		close(fd);
		// free now: the same server opens
		volatile int done = 0;
		std::vector<Cli*> all;
		ok = kserver_open(s->k, 0, on_accept);
		MON_CHECK(ok, "server.open", "the address is free but the server cannot be opened");
		if (ok) {
			where(s);
			mon_store32(&s->linger_go, 1);
			traffic(s, 3, true, &all, &done);
			wait_traffic(&done, 3);
			kserver_close(s->k);
		}
		mon_store32(&s->released, 1);
		kserver_release(s->k);
		while (!mon_load32(&s->freed)) mon::real_usleep(300);
		mon::count("busy_addresses");
		mon::cover(mon::hash(s->family, port));
		mon::eval();
		mon::progress();
		for (Cli* c : all) { SpinGuard g(tab_lk); tab.erase(c->id); }
	}
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C14");
	mon::watchdog(mon::iarg("watchdog", 25));
	kx::loop4(); kx::port6();
	std::string m = mon::arg("mode", "server");
	if (m == "server") mode_server();
	else mode_bindfail();
	mon::finish();
}
