// UDP (C13): every datagram read is matched against those sent to that socket.
#include "net.h"
#include "kudp.h"
using namespace net;

struct Dg { uint64_t id; uint32_t len; sockaddr_storage from; uint32_t dst4; };   // dst4: IPv4 address it was sent to
struct Group;
struct Sock {
	Group* g; int n;
	kconnection* c; kselector* loop; Rng r;
	sockaddr_storage at;
	bool pktinfo, any; int mode;           // mode 0: fiber, 1: callbacks
	int expect;                            // datagrams to read (-1: shared with a twin, until shut down)
	volatile int got, ended, sent_to, shut;
	volatile int pending;                  // a read is waiting
	uint64_t order;
	volatile int shut_done;                // ... and the call is over
	volatile int weight;                   // bytes on the way (its buffer must not overflow)
	// callback mode
	std::vector<char> mem; std::vector<kgl_iovec> iov; kgl_iovec holder; size_t cap;
	Sock() : g(NULL), n(0), c(NULL), loop(NULL), r(1), pktinfo(false), any(false), mode(0), expect(0), got(0), ended(0), sent_to(0), shut(0), pending(0), order(0), shut_done(0), weight(0), cap(0) {}
};
struct Group {
	int id, family; Rng r;
	std::vector<Sock*> s;
	bool twins;                            // sockets 0 and 1 share one address
	SpinLock lk;
	std::map<int, std::multimap<uint64_t, Dg>> out;   // per receiver: datagrams on the way, by key
	volatile int ended;
	volatile int64_t next_id;
	Group() : id(0), family(0), r(1), twins(false), ended(0), next_id(0) {}
};
static int slot(Group* g, int n) { return g->twins && n == 1 ? 0 : n; }
static bool same(const sockaddr_storage* a, const sockaddr_storage* b) {
	if (a->ss_family != b->ss_family) return false;
	if (a->ss_family == AF_INET) return ((sockaddr_in*)a)->sin_port == ((sockaddr_in*)b)->sin_port && ((sockaddr_in*)a)->sin_addr.s_addr == ((sockaddr_in*)b)->sin_addr.s_addr;
	return ((sockaddr_in6*)a)->sin6_port == ((sockaddr_in6*)b)->sin6_port && !memcmp(&((sockaddr_in6*)a)->sin6_addr, &((sockaddr_in6*)b)->sin6_addr, 16);
}
static std::string show(const sockaddr_storage* a) {
	char ip[64] = "", b[100];
	inet_ntop(a->ss_family, a->ss_family == AF_INET ? (void*)&((sockaddr_in*)a)->sin_addr : (void*)&((sockaddr_in6*)a)->sin6_addr, ip, sizeof ip);
	snprintf(b, sizeof b, "%s port %d (family %d)", ip, ntohs(((sockaddr_in*)a)->sin_port), a->ss_family);
	return b;
}
// contents: the first 8 bytes carry an id, the rest is the pattern of that id
static void content(char* b, uint64_t id, uint32_t len) {
	char head[8];
	memcpy(head, &id, 8);
	for (uint32_t i = 0; i < len && i < 8; i++) b[i] = head[i];
	if (len > 8) fill(b + 8, (uint32_t)id * 3 + 1, 8, len - 8);
}
// short datagrams are told apart by their length and bytes only
static uint64_t key_of(const char* b, uint32_t len) {
	uint64_t v = 0;
	memcpy(&v, b, std::min(len, 8u));
	return len >= 8 ? v : mon::hash(v, 100 + len);
}
static uint32_t weigh(uint32_t len) { return len + len / 8 + 1500; }
static void send_one(Group* g, Sock* to, int raw_fd, Sock* from, const sockaddr_storage* src, Rng& r, bool late) {
	while (mon_load32(&to->sent_to) - mon_load32(&g->s[slot(g, to->n)]->got) - (g->twins && to->n < 2 ? mon_load32(&g->s[1]->got) : 0) > 40) { if (from) kfiber_msleep(1); else mon::real_usleep(300); if (mon::violated()) return; }
	uint32_t len = 0;
	switch (r.below(8)) {
	case 0: len = 0; break;
	case 1: len = 1 + r.below(7); break;
	case 2: len = 8 + r.below(20); break;
	case 3: len = 1472 + r.below(30); break;
	case 4: len = 4000 + r.below(12000); break;
	case 5: len = r.chance(1, 4) ? (g->family == AF_INET ? 65507 : 65000) - r.below(3) : 40; break;
	default: len = 8 + r.below(1500);
	}
	Sock* first = g->s[slot(g, to->n)];
	if (late && mon_load32(&first->weight) + weigh(len) > 120000) len = r.below(100);
	while (!late && mon_load32(&first->weight) + weigh(len) > 120000) { if (from) kfiber_msleep(1); else mon::real_usleep(300); if (mon::violated()) return; }
	mon_fetch_add32(&first->weight, (int)weigh(len));
	std::vector<char> b(len + 1);
	Dg d;
	memset(&d, 0, sizeof d);
	d.id = (uint64_t)(mon_fetch_add(&g->next_id, 1) + 1) * 1000003 + g->id;
	d.len = len;
	d.from = *src;
	content(b.data(), d.id, len);
	sockaddr_storage dst = to->at;
	if (to->any && g->family == AF_INET) {
		d.dst4 = htonl(0x7f000000u | (1 + r.below(250)) << 16 | r.below(256) << 8 | (1 + r.below(250)));
		if (!from && r.chance(1, 5)) { d.dst4 = htonl(0x7fffffffu); mon::count("broadcast"); }     // to everyone: the local address is not the one of the socket
		((sockaddr_in*)&dst)->sin_addr.s_addr = d.dst4;
	} else if (g->family == AF_INET) d.dst4 = ((sockaddr_in*)&dst)->sin_addr.s_addr;
	uint64_t k = key_of(b.data(), len);
	{ SpinGuard q(g->lk); g->out[slot(g, to->n)].insert(std::make_pair(k, d)); }
	mon_fetch_add32(&to->sent_to, 1);
	socklen_t sl = g->family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
	bool ok;
	if (from) ok = r.chance(1, 2) ? kudp_send_to(from->c, (sockaddr_i*)&dst, b.data(), (int)len) : kudp_send(from->c, (sockaddr*)&dst, sl, b.data(), (int)len) == (int)len;
	else ok = sendto(raw_fd, b.data(), len, 0, (sockaddr*)&dst, sl) == (ssize_t)len;
	MON_CHECK(ok, "udp.send", "a datagram of %u bytes could not be sent to %s: %s", len, show(&dst).c_str(), strerror(errno));
	mon::count("sent");
	mon::progress();
}
// a buffer of any shape: pieces, some empty
static void shape(Sock* s) {
	size_t cap = s->r.chance(1, 3) ? 8 + s->r.below(64) : s->r.chance(1, 2) ? 2000 : 66000;
	s->cap = cap;
	s->mem.assign(cap + 16, (char)0xA5);
	s->iov.clear();
	size_t off = 0;
	int pieces = 1 + s->r.below(6);
	for (int i = 0; i < pieces; i++) {
		if (s->r.chance(1, 5)) s->iov.push_back(kgl_iovec{ s->mem.data() + off, 0 });
		size_t n = i == pieces - 1 ? cap - off : s->r.below((uint32_t)(cap - off) + 1);
		if (i == pieces - 1 || n) s->iov.push_back(kgl_iovec{ s->mem.data() + off, n });
		off += n;
	}
	mon::count("buffers", 1);
}
static void received(Sock* s, int got) {
	Group* g = s->g;
	if ((size_t)got > s->cap) { mon::violation("udp.length", "%d bytes were read into a buffer of %zu", got, s->cap); return; }
	for (size_t i = got; i < s->mem.size(); i++) if (s->mem[i] != (char)0xA5) { mon::violation("udp.overrun", "bytes behind the datagram were touched (at %zu, datagram %d, buffer %zu)", i, got, s->cap); break; }
	sockaddr_storage from;
	memset(&from, 0, sizeof from);
	memcpy(&from, &s->c->addr, sizeof s->c->addr);
	Dg d;
	bool found = false, known = false;
	{
		SpinGuard q(g->lk);
		auto& m = g->out[slot(g, s->n)];
		auto range = m.equal_range(key_of(s->mem.data(), (uint32_t)got));
		for (auto it = range.first; it != range.second; ++it) {
			known = true;
			d = it->second;
			if (std::min<size_t>(d.len, s->cap) != (size_t)got || !same(&d.from, &from)) continue;
			found = true;
			m.erase(it);
			break;
		}
	}
	mon_fetch_add32(&s->got, 1);
	if (found) mon_fetch_add32(&g->s[slot(g, s->n)]->weight, -(int)weigh(d.len));
	mon::count("received");
	s->order = mon::hash(s->order, got * 7 + s->n);
	if (!found) {
		if (!known) mon::violation("udp.unknown", "a datagram of %d bytes was read that was not sent here (or read before), from %s", got, show(&from).c_str());
		else if (!same(&d.from, &from)) mon::violation("udp.source", "the source address is given as %s, it is %s", show(&from).c_str(), show(&d.from).c_str());
		else mon::violation("udp.length", "a datagram of %u bytes was read as %d bytes (buffer %zu)", d.len, got, s->cap);
		return;
	}
	if (got > 8) {
		ssize_t x = differs(s->mem.data() + 8, (uint32_t)d.id * 3 + 1, 8, got - 8);
		MON_CHECK(x < 0, "udp.content", "byte %zd of a datagram of %u is wrong", x + 8, d.len);
	}
	if (d.len > s->cap) mon::count("cut");
	if (d.len == 0) mon::count("empty");
	if (d.len > 60000) mon::count("largest");
	// where it was sent to
	sockaddr_storage to;
	memset(&to, 0, sizeof to);
	to.ss_family = g->family;
	int rc = kudp_get_recvaddr(s->c, (sockaddr*)&to);
	if (!s->pktinfo) MON_CHECK(rc == -1, "udp.local", "a local address is given that was not asked for");
	else {
		MON_CHECK(rc == 0, "udp.local", "the local address of a datagram is missing (family %d)", g->family);
		if (rc == 0 && g->family == AF_INET) MON_CHECK(((sockaddr_in*)&to)->sin_addr.s_addr == d.dst4, "udp.local", "the local address of a datagram is given as %x, it was sent to %x", ntohl(((sockaddr_in*)&to)->sin_addr.s_addr), ntohl(d.dst4));
		if (rc == 0 && g->family == AF_INET6) MON_CHECK(!memcmp(&((sockaddr_in6*)&to)->sin6_addr, &in6addr_loopback, 16), "udp.local", "the local address of an IPv6 datagram is wrong");
		sockaddr_storage other;
		memset(&other, 0, sizeof other);
		other.ss_family = g->family == AF_INET ? AF_INET6 : AF_INET;
		MON_CHECK(kudp_get_recvaddr(s->c, (sockaddr*)&other) == -1, "udp.local", "a local address of the other family is given");
		mon::count(g->family == AF_INET ? "local4" : "local6");
	}
}
static void failed(Sock* s, int got) {
	MON_CHECK(got < 0, "udp.result", "result %d", got);
	MON_CHECK(mon_load32(&s->shut), "udp.failed", "a read of an open socket failed (%d)", got);
	mon::count("failed_reads");
}
static void ended(Sock* s) {
	mon_store32(&s->ended, 1);
	kx::signal_done(&s->g->ended);
}
// a read may fail for once with an injected error: tried again
static __thread int injected_err;
static bool udp_fault(int fd, int op, size_t, size_t*, int* err) {
	if (op != wrap::OP_RECVMSG) return false;
	uint32_t x = xr() % 100;
	if ((int)x < again_num) { *err = EAGAIN; mon::count("injected.would_block"); wrap::rearm(fd); return true; }
	if ((int)x < again_num + short_num) { *err = (xr() & 1) ? ENOMEM : ECONNREFUSED; injected_err = *err; mon::count("injected.error"); return true; }
	return false;
}
static bool was_injected(int got) {
	if (!injected_err) return false;
	MON_CHECK(got == (injected_err == ENOMEM ? ST_ERR_NOMEM : ST_ERR_RESULT), "udp.error", "a failed read (errno %d) gave %d", injected_err, got);
	injected_err = 0;
	return true;
}
static int reader(Sock* s) {
	while (s->expect < 0 || mon_load32(&s->got) < s->expect || !mon_load32(&s->shut) ) {
		shape(s);
		mon_store32(&s->pending, 1);
		injected_err = 0;
		int got = kfiber_net_readv(s->c, s->iov.data(), (int)s->iov.size());
		mon_store32(&s->pending, 0);
		if (got >= 0) { received(s, got); mon::progress(); continue; }
		if (was_injected(got)) continue;
		failed(s, got);
		break;
	}
	if (s->r.chance(1, 2) && mon_load32(&s->shut)) {        // reading on fails too
		shape(s);
		injected_err = 0;
		int got = kfiber_net_readv(s->c, s->iov.data(), (int)s->iov.size());
		if (got >= 0) received(s, got);
		else if (!was_injected(got)) mon::count("failed_reads");
	}
	while (!__atomic_load_n(&s->shut_done, __ATOMIC_ACQUIRE)) kfiber_msleep(1);
	kfiber_net_close(s->c);
	ended(s);
	return 0;
}
static kev_result cb_read(KOPAQUE data, void* arg, int got);
static kev_result cb_next(Sock* s) {
	shape(s);
	s->holder.iov_base = (char*)s->iov.data();
	s->holder.iov_len = s->iov.size();
	mon_store32(&s->pending, 1);
	return selectable_read(&s->c->st, cb_read, &s->holder, s);
}
static void later(Sock* s) {
	if (!__atomic_load_n(&s->shut_done, __ATOMIC_ACQUIRE)) { mon::real_usleep(20); kx::post(s->loop, [s] { later(s); }); return; }
	kconnection_destroy(s->c);
	ended(s);
}
static kev_result cb_read(KOPAQUE data, void* arg, int got) {
	Sock* s = (Sock*)arg;
	mon_store32(&s->pending, 0);
	mon::count("callback_reads");
	if (got < 0 && !was_injected(got)) {
		failed(s, got);
		if (!__atomic_load_n(&s->shut_done, __ATOMIC_ACQUIRE)) { kx::post(s->loop, [s] { later(s); }); return kev_ok; }
		kconnection_destroy(s->c);
		ended(s);
		return kev_destroy;
	}
	if (got >= 0) received(s, got);
	mon::progress();
	injected_err = 0;
	return cb_next(s);
}
static void open_sock(Sock* s) {
	Group* g = s->g;
	int fl = (g->family == AF_INET6 ? KSOCKET_ONLY_IPV6 : 0) | (s->pktinfo ? KSOCKET_IP_PKTINFO : 0) | (g->twins ? KSOCKET_REUSEPORT : 0);
	s->c = kudp_new2(fl, s->loop);
	if (!s->c) mon::harness_error("kudp_new2");
	sockaddr_storage a;
	memset(&a, 0, sizeof a);
	a.ss_family = g->family;
	if (g->family == AF_INET) { if (!s->any) inet_pton(AF_INET, kx::loop4(), &((sockaddr_in*)&a)->sin_addr); }
	else if (!s->any) ((sockaddr_in6*)&a)->sin6_addr = in6addr_loopback;
	// a port chosen for SO_REUSEPORT may be one that is shared already: an address of their own
	if (g->twins) ((sockaddr_in*)&a)->sin_addr.s_addr = htonl(0x7f000000u | (((uint32_t)getpid() << 2 | (g->id & 3)) & 0xffffff));
	if (g->twins && s->n == 1) a = g->s[0]->at;
	bool ok = kudp_bind(s->c, (sockaddr_i*)&a);
	MON_CHECK(ok, "udp.bind", "binding failed: %s", strerror(errno));
	sockaddr_i self;
	if (kconnection_self_addr(s->c, &self)) mon::harness_error("getsockname");
	memcpy(&s->at, &self, sizeof self);
	if (s->any && g->family == AF_INET6) ((sockaddr_in6*)&s->at)->sin6_addr = in6addr_loopback;
	if (!g->twins) {                       // taken now
		kconnection* c2 = kudp_new2(g->family == AF_INET6 ? KSOCKET_ONLY_IPV6 : 0, s->loop);
		sockaddr_i b;
		memcpy(&b, &s->at, sizeof b);
		MON_CHECK(!kudp_bind(c2, &b), "udp.bind", "an address was bound twice");
		kconnection_real_destroy(c2);
	}
	if (g->family == AF_INET && s->r.chance(1, 3)) {     // a multicast group is joined when the system lets one join it
		char ip[32];
		bool real = s->r.chance(2, 3);
		snprintf(ip, sizeof ip, "%d.%u.%u.%u", real ? 239 : 10, s->r.below(250), s->r.below(250), 1 + s->r.below(250));
		struct ip_mreq q;
		memset(&q, 0, sizeof q);
		inet_pton(AF_INET, ip, &q.imr_multiaddr);
		int plain = socket(AF_INET, SOCK_DGRAM, 0);
		bool can = setsockopt(plain, IPPROTO_IP, IP_ADD_MEMBERSHIP, &q, sizeof q) == 0;
		close(plain);
		bool did = kudp_add_multicast(s->c, ip);
		MON_CHECK(did == can, "udp.multicast", "joining %s gives %d, a plain socket %d", ip, did, can);
		if (did) {
			MON_CHECK(!kudp_add_multicast(s->c, ip), "udp.multicast", "%s was joined twice", ip);
			MON_CHECK(setsockopt(s->c->st.fd, IPPROTO_IP, IP_DROP_MEMBERSHIP, &q, sizeof q) == 0, "udp.multicast", "%s was not joined: %s", ip, strerror(errno));
		}
		mon::count("multicast_groups");
	}
	mon::count("sockets");
}
struct RawArg { Group* g; uint64_t seed; int n; volatile int* done; bool late; };
static void* raw_sender(void* p) {
	RawArg* a = (RawArg*)p;
	Group* g = a->g;
	Rng r(a->seed);
	int nfd = 1 + r.below(3), fd[3];
	sockaddr_storage src[3];
	for (int i = 0; i < nfd; i++) {
		fd[i] = socket(g->family, SOCK_DGRAM, 0);
		memset(&src[i], 0, sizeof src[i]);
		src[i].ss_family = g->family;
		if (g->family == AF_INET) ((sockaddr_in*)&src[i])->sin_addr.s_addr = htonl(0x7f000000u | (1 + r.below(250)) << 16 | 3 << 8 | (1 + r.below(250)));
		else ((sockaddr_in6*)&src[i])->sin6_addr = in6addr_loopback;
		socklen_t l = g->family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
		int on = 1;
		setsockopt(fd[i], SOL_SOCKET, SO_BROADCAST, &on, sizeof on);
		if (bind(fd[i], (sockaddr*)&src[i], l)) mon::harness_error("raw bind: %s", strerror(errno));
		getsockname(fd[i], (sockaddr*)&src[i], &l);
	}
	for (int i = 0; i < a->n && !mon::violated(); i++) {
		int k = r.below(nfd);
		send_one(g, g->s[r.below((uint32_t)g->s.size())], fd[k], NULL, &src[k], r, a->late);
		if (r.chance(1, 6)) mon::real_usleep(r.below(1500));
	}
	for (int i = 0; i < nfd; i++) close(fd[i]);
	kx::signal_done(a->done);
	delete a;
	return NULL;
}
static std::vector<Group*> current;
static void hang_info(char* b, size_t n) {
	size_t k = 0;
	for (Group* g : current) for (Sock* s : g->s) if (!mon_load32(&s->ended) && k < n)
		k += snprintf(b + k, n - k, "group %d socket %d: sent to %d got %d shut %d reading %d mode %d; ", g->id, s->n, s->sent_to, s->got, s->shut, s->pending, s->mode);
}
static void* group_life(void* p) {
	Group* g = (Group*)p;
	Rng& r = g->r;
	int n = 1 + r.below(4);
	g->twins = n > 1 && r.chance(1, 5);
	if (g->twins) g->family = AF_INET;
	for (int i = 0; i < n; i++) {
		Sock* s = new Sock;
		s->g = g; s->n = i; s->r = Rng(mon::hash(mon::hash(mon::seed, g->id), i + 1));
		s->pktinfo = r.chance(1, 2); s->any = r.chance(1, 2) && !g->twins;
		s->mode = r.below(3) ? 0 : 1;
		s->loop = get_selector_by_index(r.below(kx::n_loops));
		g->s.push_back(s);
		open_sock(s);
	}
	volatile int senders = 0;
	int want = 0;
	bool late = r.chance(1, 3);            // everything sent before the first read
	auto start_readers = [&] {
		for (Sock* s : g->s) {
			if (s->mode == 0) kx::spawn(s->loop, [s](int) { return reader(s); });
			else kx::post(s->loop, [s] { cb_next(s); });
		}
	};
	if (!late) start_readers();
	int per = late ? 10 : 5 + r.below(40);
	RawArg* a = new RawArg{ g, mon::hash(mon::seed, g->id * 5 + 1), per, &senders, late };
	pthread_t t;
	if (pthread_create(&t, NULL, raw_sender, a)) mon::harness_error("thread");
	pthread_detach(t);
	want++;
	// the sockets send to each other too (from fibers of their own loop)
	for (Sock* s : g->s) {
		if (!r.chance(1, 2)) continue;
		if (s->any && g->family == AF_INET) continue;       // its source address depends on the way
		if (g->twins) continue;
		want++;
		int k = late ? 5 : r.below(20);
		volatile int* d = &senders;
		uint64_t sd = r.next();
		kx::spawn(s->loop, [g, s, k, sd, late](int) {
			Rng q(sd);
			for (int i = 0; i < k && !mon::violated(); i++) { send_one(g, g->s[q.below((uint32_t)g->s.size())], -1, s, &s->at, q, late); if (q.chance(1, 5)) kfiber_msleep(1); }
			mon::count("own_senders");
			return 0;
		}, d);
	}
	kx::wait_done(&senders, want);
	if (late) { mon::count("late_readers"); start_readers(); }
	// everything arrives
	for (Sock* s : g->s) {
		if (g->twins && s->n < 2) {
			if (s->n == 0) while (mon_load32(&g->s[0]->got) + mon_load32(&g->s[1]->got) < mon_load32(&g->s[0]->sent_to) + mon_load32(&g->s[1]->sent_to) && !mon::violated()) mon::real_usleep(200);
		} else while (mon_load32(&s->got) < mon_load32(&s->sent_to) && !mon::violated()) mon::real_usleep(200);
	}
	// then the sockets are quiet: shut down from here or from their loop
	for (Sock* s : g->s) {
		if (r.chance(1, 2)) for (int i = 0; i < 50 && !mon_load32(&s->pending); i++) mon::real_usleep(100);
		if (r.chance(1, 2)) mon::real_usleep(r.below(3000));
		mon_store32(&s->shut, 1);
		if (r.chance(1, 2)) { selectable_shutdown(&s->c->st); __atomic_store_n(&s->shut_done, 1, __ATOMIC_RELEASE); }
		else { volatile int d = 0, *dp = &d; kx::post(s->loop, [s, dp] { selectable_shutdown(&s->c->st); __atomic_store_n(&s->shut_done, 1, __ATOMIC_RELEASE); kx::signal_done(dp); }); kx::wait_done(&d, 1); }
		mon::count("shutdowns");
	}
	kx::wait_done(&g->ended, (int)g->s.size());
	for (auto& m : g->out) MON_CHECK(m.second.empty() || mon::violated(), "udp.lost", "%zu datagrams were never read", m.second.size());
	uint64_t order = g->family;
	for (Sock* s : g->s) order = mon::hash(order, s->order);
	mon::cover(order);
	mon::eval();
	mon::progress();
	return NULL;
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C13");
	mon::watchdog(mon::iarg("watchdog", 25));
	mon::on_hang = hang_info;
	signal(SIGPIPE, SIG_IGN);
	kx::loop4();
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	Rng R(mon::seed * 13 + 7);
	int fds = wrap::open_fds(), conc = 4;
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		again_num = R.below(2) ? R.below(40) : 0;
		short_num = R.below(2) ? R.below(20) : 0;
		wrap::hooks.xfer = udp_fault;
		mon::set_case("groups %d..%d", base, base + n - 1);
		current.clear();
		std::vector<pthread_t> t(n);
		for (int i = 0; i < n; i++) {
			Group* g = new Group;
			g->id = base + i;
			g->family = R.below(2) ? AF_INET : AF_INET6;
			g->r = Rng(mon::hash(mon::seed, 999 + g->id));
			current.push_back(g);
		}
		for (int i = 0; i < n; i++) if (pthread_create(&t[i], NULL, group_life, current[i])) mon::harness_error("thread");
		for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
		if (mon::violated()) break;
		kx::wait_fiber_count(0);
		int now = wrap::open_fds();
		for (int i = 0; i < 200 && now != fds; i++) { mon::real_usleep(500); now = wrap::open_fds(); }
		MON_CHECK(now == fds, "udp.descriptors", "%d descriptors are open after a round, %d before: %s", now, fds, wrap::fd_list().c_str());
	}
	mon::finish();
}
