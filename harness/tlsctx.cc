// TLS contexts (C26): replaced while connections arrive, picked by name, refused when invalid.
// WRAP: SSL_set_fd
#include "net.h"
#include "tlsutil.h"
#include <sys/stat.h>
using namespace net;
using namespace tls;
extern "C" int __wrap_SSL_set_fd(SSL* s, int fd) { int r = __real_SSL_set_fd(s, fd); blocks(s); return r; }

enum { T10 = 1, T11 = 2, T12 = 4, T13 = 8 };
static const int VERSION[4] = { TLS1_VERSION, TLS1_1_VERSION, TLS1_2_VERSION, TLS1_3_VERSION };
static const char* VNAME[4] = { "TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3" };
static int highest(int mask) { for (int i = 3; i >= 0; i--) if (mask >> i & 1) return VERSION[i]; return 0; }
static std::string protocols_text(int mask, Rng* r = NULL) {
	std::string s;
	for (int i = 0; i < 4; i++) if (mask >> i & 1) {
		std::string n = VNAME[i];
		if (r && r->chance(1, 3)) for (char& c : n) c = r->chance(1, 2) ? (char)tolower(c) : (char)toupper(c);
		if (!s.empty() || (r && r->chance(1, 4))) s += r && r->chance(1, 3) ? " \t " : " ";
		if (r && r->chance(1, 5)) s = n + " " + s; else s += n;
	}
	if (r && r->chance(1, 5)) s += "  ";
	if (r && r->chance(1, 5)) s = "TLSv9 " + s;
	if (s.empty()) s = r && r->chance(1, 2) ? "none" : "SSLv9";
	return s;
}
// ---- contexts and who still holds them -----------------------------------------------------
typedef std::vector<std::string> Protos;
static std::string wire(const Protos& p) { std::string s; for (auto& x : p) { s += (char)x.size(); s += x; } return s; }
struct Ctx {
	int id; long serial; int mask; Protos alpn; std::string alpn_wire;
	SSL_CTX* x;
	volatile int freed;
	Ctx() : id(0), serial(0), mask(0), x(NULL), freed(0) {}
};
static int ctx_ix, ssl_ix;
static volatile int64_t ssl_live;
static void ctx_freed(void*, void* p, CRYPTO_EX_DATA*, int, long, void*) {
	if (!p) return;
	Ctx* c = (Ctx*)p;
	int was = mon_fetch_add32(&c->freed, 1);
	MON_CHECK(was == 0, "ctx.freed_twice", "a context was freed %d times", was + 1);
	mon::count("contexts_freed");
	mon::progress();
}
static void ssl_made(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { mon_fetch_add(&ssl_live, 1); }
static void ssl_freed(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { mon_fetch_add(&ssl_live, -1); }
static Cert ca, other_ca, inter, client_cert, foreign_cert;
static std::string ca_file, other_file;
static const char* PROTOS[] = { "h2", "http/1.1", "x", "spdy/3.1", "a-protocol-with-a-long-name", "http/1.0" };
static Protos some_protos(Rng& r, int max) {
	Protos p;
	int n = r.below(max + 1), at = r.below(6);
	for (int i = 0; i < n; i++) p.push_back(PROTOS[(at + i * 5) % 6]);   // (5 and 6 have no common divisor)
	return p;
}
static std::string negotiated(const Protos& server, const Protos& client) {
	for (auto& s : server) for (auto& c : client) if (s == c) return s;
	return "";
}
static pthread_mutex_t make_lk = PTHREAD_MUTEX_INITIALIZER;
static int next_ctx;
static Ctx* make_ctx(Rng& r, int mask) {
	Ctx* c = new Ctx;
	pthread_mutex_lock(&make_lk);
	c->id = ++next_ctx;
	char cn[40];
	snprintf(cn, sizeof cn, "ctx%d.test", c->id);
	Cert t = make_cert(cn, 0, &ca);
	pthread_mutex_unlock(&make_lk);
	c->serial = ASN1_INTEGER_get(X509_get_serialNumber(t.x));
	c->mask = mask;
	c->alpn = some_protos(r, 4);
	c->alpn_wire = wire(c->alpn);
	c->x = server_ctx(t, protocols_text(mask, &r).c_str(), c->alpn.empty() ? NULL : c);
	SSL_CTX_set_ex_data(c->x, ctx_ix, c);
	X509_free(t.x);
	EVP_PKEY_free(t.key);
	mon::count("contexts");
	return c;
}
// the library asks for the protocols of a context
static void npn(SSL*, void* data, const unsigned char** out, unsigned int* len) {
	Ctx* c = (Ctx*)data;
	MON_CHECK(c && !mon_load32(&c->freed), "alpn.data", "protocols are asked of a freed context");
	*out = (const unsigned char*)c->alpn_wire.data();
	*len = (unsigned)c->alpn_wire.size();
}
// ---- servers -------------------------------------------------------------------------------
enum { OPEN, FIBER };
struct Srv {
	int id, style;
	bool reject;
	kserver* k;
	Rng r;
	sockaddr_in at;
	pthread_mutex_t lk;
	std::vector<Ctx*> hist;
	std::map<std::string, Ctx*> names;
	std::map<std::string, std::vector<SSL_SESSION*> > sessions;
	volatile int begun, stable, linger_go, live, freed, released, sni_live, accepted, gone_fibers, stop, pending;
	volatile int last[64];
	Srv() : id(0), style(0), reject(false), k(NULL), r(1), begun(-1), stable(-1), linger_go(0), live(0), freed(0), released(0), sni_live(0), accepted(0), gone_fibers(0), stop(0), pending(0) { pthread_mutex_init(&lk, NULL); for (int i = 0; i < 64; i++) last[i] = -1; }
	Ctx* at_index(int i) { pthread_mutex_lock(&lk); Ctx* c = i >= 0 && i < (int)hist.size() ? hist[i] : NULL; pthread_mutex_unlock(&lk); return c; }
	int index_of(Ctx* c) { int k = -1; pthread_mutex_lock(&lk); for (int i = (int)hist.size() - 1; i >= 0; i--) if (hist[i] == c) { k = i; break; } pthread_mutex_unlock(&lk); return k; }
};
struct Sni { uint64_t magic; Srv* s; };
static const uint64_t SNI_MAGIC = 0x736e692d68616e64ull, MAGIC = 0x746c732d63747821ull;
static volatile int mischief = 0;
static std::string broken_pem = "data:-----BEGIN CERTIFICATE-----\nnot base 64 at all!\n-----END CERTIFICATE-----\n";
// Somebody tries an invalid setting on this thread.
static void bad_setting(Rng& r) {
	std::string good_key = "data:" + client_cert.key_pem, other_key = "data:" + foreign_cert.key_pem, good_cert = "data:" + client_cert.cert_pem;
	SSL_CTX* x = NULL;
	switch (r.below(4)) {
	case 0: x = kgl_ssl_ctx_new_server("/nonexistent/cert", "/nonexistent/key", NULL, NULL, NULL); break;
	case 1: { kgl_ref_str_t a = ref_of(broken_pem), b = ref_of(good_key); x = kgl_ssl_ctx_new_server2(&a, &b, NULL, NULL, NULL); break; }
	case 2: { kgl_ref_str_t a = ref_of(good_cert), b = ref_of(other_key); x = kgl_ssl_ctx_new_server2(&a, &b, NULL, NULL, NULL); break; }
	case 3: x = kgl_ssl_ctx_new_client(NULL, "/nonexistent/ca", NULL); break;
	}
	MON_CHECK(!x, "ctx.invalid", "an invalid setting was taken");
	if (x) SSL_CTX_free(x);
	mon::count("refused_settings");
}
static void* create_sni(KOPAQUE opaque, const char* host, SSL_CTX** out) {
	Srv* s = (Srv*)opaque;
	MON_CHECK(!mon_load32(&s->freed), "sni.freed", "a name is looked up at a freed server");
	mon::count("sni_lookups");
	std::string h = host;
	MON_CHECK(h.size() > 5 && h.compare(h.size() - 5, 5, ".test") == 0, "sni.name", "the name '%s' was never asked for", host);
	if (mischief && h[0] % 3 == 0) { Rng r(mon::hash(mon::seed, (uint64_t)xr())); bad_setting(r); mon::count("refused_in_lookup"); }
	auto it = s->names.find(h);
	if (it == s->names.end()) {
		if (h[0] == 'n') return NULL;            // no handle for this one
	} else *out = it->second->x;
	mon_fetch_add32(&s->sni_live, 1);
	return new Sni{ SNI_MAGIC, s };
}
static void free_sni(void* p) {
	Sni* h = (Sni*)p;
	MON_CHECK(h->magic == SNI_MAGIC, "sni.handle", "something else than a handle was released");
	h->magic = 0;
	mon_fetch_add32(&h->s->sni_live, -1);
	mon::count("sni_released");
	delete h;
}
static void free_opaque(KOPAQUE p) {
	Srv* s = (Srv*)p;
	int was = mon_fetch_add32(&s->freed, 1);
	MON_CHECK(was == 0, "server.freed_twice", "a server was freed %d times", was + 1);
	MON_CHECK(mon_load32(&s->released), "server.freed_early", "a server was freed although its owner has not released it");
	mon::progress();
}
struct Reply { uint64_t id; int64_t serial; int32_t didx, version, alpn_len, sni; char alpn[64], name[64]; };
struct Conn { kconnection* cn; Srv* s; int didx; };
static int serve(void* arg, int) {
	Conn* c = (Conn*)arg;
	kconnection* cn = c->cn;
	Srv* s = c->s;
	int hs = kfiber_ssl_handshake(cn);
	if (hs != 0) { mon::count("server_handshake_failures"); goto out; }
	mon::count("server_handshakes");
	{
		uint64_t q[2];
		int len = sizeof q;
		if (!kfiber_net_read_full(cn, (char*)q, &len)) { mon::count("served_mute"); goto out; }
		MON_CHECK(q[0] == MAGIC, "tls.hello", "the first bytes of a connection are wrong");
		SSL* ssl = cn->st.ssl->ssl;
		Reply p;
		memset(&p, 0, sizeof p);
		p.id = q[1] * 2654435761u + 1;
		Ctx* now = (Ctx*)SSL_CTX_get_ex_data(SSL_get_SSL_CTX(ssl), ctx_ix);
		MON_CHECK(now && !mon_load32(&now->freed), "ctx.freed_early", "a connection works with a freed context");
		p.serial = now->serial;
		p.didx = c->didx;
		p.version = SSL_version(ssl);
		const unsigned char* a = NULL; unsigned n = 0;
		kgl_ssl_get_next_proto_negotiated(ssl, &a, &n);
		p.alpn_len = (int)n;
		if (n) memcpy(p.alpn, a, std::min<unsigned>(n, 63));
		const char* nm = SSL_get_servername(ssl, TLSEXT_NAMETYPE_host_name);
		if (nm) snprintf(p.name, sizeof p.name, "%s", nm);
		p.sni = cn->sni != NULL;
		len = sizeof p;
		bool ok = kfiber_net_write_full(cn, (char*)&p, &len);
		while (ok) {
			uint64_t v = 0;
			len = sizeof v;
			if (!kfiber_net_read_full(cn, (char*)&v, &len)) break;
			v ^= p.id;
			len = sizeof v;
			ok = kfiber_net_write_full(cn, (char*)&v, &len);
			mon::count("late_pings");
		}
	}
out:
	kfiber_net_close(cn);
	mon_fetch_add32(&s->live, -1);
	delete c;
	mon::progress();
	return 0;
}
static void delivered(Srv* s, kconnection* cn, bool ordered) {
	mon_fetch_add32(&s->live, 1);
	mon_fetch_add32(&s->accepted, 1);
	if (!cn->st.ssl) { mon::violation("tls.clear", "a connection of an encrypted server is not encrypted"); kconnection_destroy(cn); mon_fetch_add32(&s->live, -1); return; }
	Ctx* c = (Ctx*)SSL_CTX_get_ex_data(SSL_get_SSL_CTX(cn->st.ssl->ssl), ctx_ix);
	int ix = s->index_of(c);
	MON_CHECK(ix >= 0, "ctx.unknown", "a connection was accepted with a context that is not of its server");
	if (ordered) {
		int l = kx::my_loop();
		MON_CHECK(ix >= mon_load32(&s->last[l]), "ctx.back", "a listener went back from context %d to the older %d", s->last[l], ix);
		mon_store32(&s->last[l], ix);
	}
	if (kfiber_create(serve, new Conn{ cn, s, ix }, 0, 0, NULL) != 0) mon::harness_error("kfiber_create");
}
static kev_result on_accept(KOPAQUE data, void* arg, int got);
KACCEPT_CALLBACK(on_accept) {
	kconnection* cn = (kconnection*)arg;
	Srv* s = (Srv*)kserver_get_opaque(cn->server);
	delivered(s, cn, false);
	return kev_ok;
}
static void accept_fiber(Srv* s, kserver_selectable* ss) {
	for (;;) {
		kconnection* cn = NULL;
		int rc = kfiber_net_accept(ss, &cn);
		if (rc != 0 || !cn) break;
		delivered(s, cn, true);
	}
	kserver_selectable_destroy(ss);
	mon_fetch_add32(&s->gone_fibers, 1);
}
static bool accept_again(int fd, int* err) {
	if ((int)(xr() % 100) >= again_num) return false;
	*err = EAGAIN;
	mon::count("injected.accept_again");
	wrap::rearm(fd);
	return true;
}
// ---- clients -------------------------------------------------------------------------------
static const int MASKS[3] = { T12, T13, T12 | T13 };
static SSL_CTX* raw_cctx[3];
struct KCtx { SSL_CTX* x; int mask, trust; Protos alpn; Ctx* data; };
static std::vector<KCtx> kcctx;
struct Cli {
	Srv* s; uint64_t id; Rng r;
	bool must, counted, linger, offer;
	std::string name;
	Protos alpn;
	int vm, lo, kc;
	// what was seen
	bool connected, hs, reused, bad; long serial; int version; std::string got_alpn; Reply rep; bool replied;
	Cli() : s(NULL), id(0), r(1), must(false), counted(false), linger(false), offer(false), vm(0), lo(0), kc(-1), connected(false), hs(false), reused(false), bad(false), serial(0), version(0), replied(false) { memset(&rep, 0, sizeof rep); }
};
static volatile int64_t next_id;
static Cli* new_cli(Srv* s, Rng& r, bool must) {
	Cli* c = new Cli;
	c->s = s;
	c->id = (uint64_t)mon_fetch_add(&next_id, 1) + 1;
	c->r = Rng(mon::hash(mon::hash(mon::seed, s->id), c->id * 31));
	c->must = must;
	c->counted = must;
	if (must) mon_fetch_add32(&s->pending, 1);
	c->linger = r.chance(1, 4);
	int k = r.below(10);
	if (k < 5 && !s->names.empty()) { auto it = s->names.begin(); std::advance(it, r.below((uint32_t)s->names.size())); c->name = it->first; }
	else if (k < 7) { char b[40]; snprintf(b, sizeof b, "%c%d.unknown.test", r.chance(1, 2) ? 'n' : 'u', (int)r.below(5)); c->name = b; }
	return c;
}
static long serial_of(SSL* ssl) {
	X509* x = SSL_get0_peer_certificate(ssl);
	return x ? ASN1_INTEGER_get(X509_get0_serialNumber(x)) : -1;
}
static void seen(Cli* c, SSL* ssl) {
	c->hs = true;
	c->serial = serial_of(ssl);
	c->version = SSL_version(ssl);
	const unsigned char* a = NULL; unsigned n = 0;
	SSL_get0_alpn_selected(ssl, &a, &n);
	c->got_alpn.assign((const char*)a, n);
	c->reused = SSL_session_reused(ssl);
}
// (served, or given up: the server may be closed)
static void past(Cli* c) { if (c->counted) { c->counted = false; mon_fetch_add32(&c->s->pending, -1); } }
static void judge(Cli* c) {
	past(c);
	Srv* s = c->s;
	int hi = mon_load32(&s->begun);
	const char* who = c->kc >= 0 ? "kasync" : "raw";
	Ctx* byname = NULL;
	if (!c->name.empty()) { auto it = s->names.find(c->name); if (it != s->names.end()) byname = it->second; }
	bool fail_possible = !c->must, ok_possible = false;
	if (c->kc >= 0 && kcctx[c->kc].trust == 2) fail_possible = true;
	else if (s->reject && c->name.empty()) fail_possible = true;
	else for (int i = c->lo; i <= hi; i++) { if (s->at_index(i)->mask & c->vm) ok_possible = true; else fail_possible = true; }
	if (!c->hs) {
		MON_CHECK(fail_possible, "tls.failed", "a %s client of server %d got no connection (connected %d, name '%s', versions %d, contexts %d..%d)", who, s->id, c->connected, c->name.c_str(), c->vm, c->lo, hi);
		mon::count(c->must ? "refused_clients" : "disturbed_clients");
		return;
	}
	MON_CHECK(ok_possible, "tls.not_refused", "a %s client got a connection that had to be refused (name '%s', versions %d, trust %d, contexts %d..%d)", who, c->name.c_str(), c->vm, c->kc >= 0 ? kcctx[c->kc].trust : 0, c->lo, hi);
	MON_CHECK(c->replied, "conn.lost", "a %s client's connection broke after its handshake (server %d)", who, s->id);
	MON_CHECK(!c->bad, "conn.broken", "an existing connection stopped working (server %d)", s->id);
	if (!c->replied) return;
	Reply& p = c->rep;
	MON_CHECK(p.id == c->id * 2654435761u + 1, "conn.reply", "the reply is for another client");
	MON_CHECK(p.didx >= c->lo && p.didx <= hi, "ctx.stale", "server %d accepted a connection with its context number %d; number %d had been in place before the client connected", s->id, p.didx, c->lo);
	Ctx* d = s->at_index(p.didx);
	if (!d) return;
	Ctx* use = byname ? byname : d;
	MON_CHECK(c->serial == use->serial, "ctx.certificate", "a client asking for '%s' saw certificate %ld instead of %ld (context %d, the server thinks %lld)", c->name.c_str(), c->serial, use->serial, p.didx, (long long)p.serial);
	MON_CHECK(c->reused || p.serial == use->serial, "ctx.server", "the server works with certificate %lld instead of %ld", (long long)p.serial, use->serial);
	MON_CHECK(c->version == highest(d->mask & c->vm) && p.version == c->version, "tls.version", "version %x was negotiated (the server says %x), server allows %d, client %d", c->version, p.version, d->mask, c->vm);
	std::string want = negotiated(use->alpn, c->alpn);
	MON_CHECK(c->got_alpn == want, "alpn.client", "the client got protocol '%s' instead of '%s'", c->got_alpn.c_str(), want.c_str());
	MON_CHECK(std::string(p.alpn, p.alpn_len) == want, "alpn.server", "the server got protocol '%.*s' instead of '%s'", p.alpn_len, p.alpn, want.c_str());
	MON_CHECK(c->name == p.name || c->reused, "sni.name", "the server saw the name '%s' instead of '%s'", p.name, c->name.c_str());
	if (!c->reused || c->version == TLS1_3_VERSION) MON_CHECK((p.sni != 0) == (!c->name.empty() && c->name[0] != 'n'), "sni.handle", "the connection of a client asking for '%s' %s a handle", c->name.c_str(), p.sni ? "has" : "lacks");
	mon::count(byname ? "served_by_name" : c->name.empty() ? "served_default" : "served_unknown_name");
	if (!want.empty()) mon::count("protocols_negotiated");
	else if (!c->alpn.empty() && !use->alpn.empty()) mon::count("protocols_disjoint");
	if (c->reused) mon::count("sessions_resumed");
	if (p.didx < hi) mon::count("served_during_replacement");
	mon::cover(mon::hash(mon::hash(use->id, c->vm), mon::hash(mon::hash(byname != NULL, want.size()), mon::hash(c->alpn.size(), hi - p.didx))));
}
static bool s_put(SSL* s, const void* b, int n) { return SSL_write(s, b, n) == n; }
static bool s_get(SSL* s, void* b, int n) {
	for (int k = 0; k < n;) { int m = SSL_read(s, (char*)b + k, n - k); if (m <= 0) return false; k += m; }
	return true;
}
static void raw_client(Cli* c) {
	Srv* s = c->s;
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (fd < 0) mon::harness_error("socket");
	int m = c->r.below(3);
	c->vm = MASKS[m];
	c->alpn = some_protos(c->r, 4);
	c->lo = mon_load32(&s->stable);
	if (connect(fd, (sockaddr*)&s->at, sizeof s->at) == 0) {
		c->connected = true;
		SSL* ssl = SSL_new(raw_cctx[m]);
		SSL_set_fd(ssl, fd);
		std::string w = wire(c->alpn), key = c->name + "/" + std::to_string(m);
		if (!w.empty()) SSL_set_alpn_protos(ssl, (const unsigned char*)w.data(), (unsigned)w.size());
		if (!c->name.empty()) SSL_set_tlsext_host_name(ssl, c->name.c_str());
		if (c->r.chance(1, 2)) {
			pthread_mutex_lock(&s->lk);
			auto& v = s->sessions[key];
			if (!v.empty()) { SSL_SESSION* x = v[c->r.below((uint32_t)v.size())]; SSL_set_session(ssl, x); c->offer = true; }
			pthread_mutex_unlock(&s->lk);
			if (c->offer) mon::count("sessions_offered");
		}
		ERR_clear_error();
		if (SSL_connect(ssl) == 1) {
			seen(c, ssl);
			uint64_t q[2] = { MAGIC, c->id };
			c->replied = s_put(ssl, q, sizeof q) && s_get(ssl, &c->rep, sizeof c->rep);
			if (c->replied) past(c);
			if (c->replied && c->linger) {
				for (int i = 0; i < 2 && !c->bad; i++) {
					for (int t = 0; i && t < 300 && !mon_load32(&s->linger_go); t++) mon::real_usleep(1000);
					uint64_t v = c->r.next(), o = v;
					if (!s_put(ssl, &v, sizeof v) || !s_get(ssl, &v, sizeof v) || v != (o ^ c->rep.id)) c->bad = true;
				}
				mon::count("lingering_clients");
			}
			SSL_SESSION* x = SSL_get1_session(ssl);
			if (x && c->replied) {
				pthread_mutex_lock(&s->lk);
				auto& v = s->sessions[key];
				if (v.size() < 6) { v.push_back(x); x = NULL; }
				pthread_mutex_unlock(&s->lk);
			}
			if (x) SSL_SESSION_free(x);
			if (c->r.chance(1, 2)) SSL_shutdown(ssl);
		}
		SSL_free(ssl);
		mon::count("raw_clients");
	}
	close(fd);
	judge(c);
	delete c;
	mon::progress();
}
static int kasync_client(Cli* c) {
	Srv* s = c->s;
	c->kc = (int)c->r.below((uint32_t)kcctx.size());
	KCtx& kc = kcctx[c->kc];
	c->vm = kc.mask;
	c->alpn = kc.alpn;
	c->lo = mon_load32(&s->stable);
	sockaddr_i to;
	memset(&to, 0, sizeof to);
	memcpy(&to.v4, &s->at, sizeof s->at);
	kconnection* cn = kconnection_new(&to);
	if (kfiber_net_connect(cn, NULL, 0) == 0) {
		c->connected = true;
		if (!kconnection_ssl_connect(cn, kc.x, c->name.empty() ? NULL : c->name.c_str())) mon::harness_error("ssl_connect");
		if (kfiber_ssl_handshake(cn) == 0) {
			seen(c, cn->st.ssl->ssl);
			uint64_t q[2] = { MAGIC, c->id };
			int len = sizeof q;
			bool ok = kfiber_net_write_full(cn, (char*)q, &len);
			len = sizeof c->rep;
			c->replied = ok && kfiber_net_read_full(cn, (char*)&c->rep, &len);
			if (c->replied) past(c);
			if (c->replied && c->linger) {
				for (int i = 0; i < 2 && !c->bad; i++) {
					for (int t = 0; i && t < 200 && !mon_load32(&s->linger_go); t++) kfiber_msleep(1);
					if (mischief && c->r.chance(1, 3)) bad_setting(c->r);
					uint64_t v = c->r.next(), o = v;
					len = sizeof v;
					ok = kfiber_net_write_full(cn, (char*)&v, &len);
					len = sizeof v;
					if (!ok || !kfiber_net_read_full(cn, (char*)&v, &len) || v != (o ^ c->rep.id)) c->bad = true;
				}
				mon::count("lingering_clients");
			}
		}
		mon::count("kasync_clients");
	}
	kfiber_net_close(cn);
	judge(c);
	delete c;
	return 0;
}
// ---- the life of a server ------------------------------------------------------------------
static void on_loop(Rng& r, std::function<void()> fn) {
	volatile int done = 0;
	kx::spawn(get_selector_by_index(r.below(kx::n_loops)), [fn](int) { fn(); return 0; }, &done);
	kx::wait_done(&done, 1);
}
static void flush_loops() {
	volatile int n = 0, *p = &n;
	for (int i = 0; i < kx::n_loops; i++) kx::post(get_selector_by_index(i), [p] { kx::signal_done(p); });
	kx::wait_done(&n, kx::n_loops);
}
static int listeners(Srv* s) {
	int n = 0;
	kgl_list* p;
	kmutex_lock(&s->k->ss_lock);
	klist_foreach(p, &s->k->ss) n++;
	kmutex_unlock(&s->k->ss_lock);
	return n;
}
// new settings (one caller at a time); returns when the call has returned
static void replace(Srv* s, Rng& r) {
	Ctx* old = s->at_index(mon_load32(&s->begun));
	bool same = old && r.chance(1, 10);
	Ctx* c = same ? old : make_ctx(r, r.chance(1, 3) ? MASKS[r.below(2)] : (T12 | T13));
	kgl_ssl_ctx* k;
	if (same) { k = s->k->ssl_ctx; kgl_add_ref_ssl_ctx(k); mon::count("set_again"); }
	else k = kgl_new_ssl_ctx(c->x);
	pthread_mutex_lock(&s->lk);
	s->hist.push_back(c);
	mon_store32(&s->begun, (int)s->hist.size() - 1);
	pthread_mutex_unlock(&s->lk);
	Rng* q = &r;
	if (r.chance(1, 2)) kserver_set_ssl_ctx(s->k, k);
	else on_loop(*q, [s, k] { kserver_set_ssl_ctx(s->k, k); });
	if (r.chance(1, 12)) kserver_set_ssl_ctx(s->k, NULL);      // not taken
	mon::count("replaced");
}
static void settle(Srv* s) {
	int n = mon_load32(&s->begun);
	flush_loops();
	if (n > mon_load32(&s->stable)) mon_store32(&s->stable, n);
}
static void open_it(Srv* s) {
	if (s->style == OPEN) {
		bool ok = kserver_open(s->k, 0, on_accept);
		MON_CHECK(ok, "server.open", "a server could not be opened");
	} else for (int i = 0; i < kx::n_loops; i++) {
		volatile int up = 0, *u = &up;
		kx::spawn(get_selector_by_index(i), [s, u](int) {
			kserver_selectable* ss = NULL;
			int rc = kfiber_net_listen(s->k, 0, &ss);
			MON_CHECK(rc == 0 && ss, "server.open", "kfiber_net_listen failed");
			kx::signal_done(u);
			if (ss) accept_fiber(s, ss);
			return 0;
		});
		kx::wait_done(&up, 1);
	}
	memcpy(&s->at, &s->k->addr.v4, sizeof s->at);
}
struct Batch { std::vector<Cli*> v; volatile int* done; };
static void traffic(Srv* s, Rng& r, int n, bool must, volatile int* done) {
	std::vector<Cli*> raw[2];
	for (int i = 0; i < n; i++) {
		Cli* c = new_cli(s, r, must);
		if (r.chance(1, 2)) kx::spawn(get_selector_by_index(r.below(kx::n_loops)), [c](int) { return kasync_client(c); }, done);
		else raw[r.below(2)].push_back(c);
	}
	for (auto& v : raw) if (!v.empty()) {
		Batch* b = new Batch{ v, done };
		pthread_t t;
		if (pthread_create(&t, NULL, [](void* p) -> void* {
			Batch* b = (Batch*)p;
			for (Cli* c : b->v) { raw_client(c); kx::signal_done(b->done); }
			delete b;
			return NULL;
		}, b)) mon::harness_error("thread");
		pthread_detach(t);
	}
}
struct Replacer { Srv* s; Rng r; int n; };
static void* replacer(void* p) {
	Replacer* x = (Replacer*)p;
	for (int i = 0; i < x->n && !mon_load32(&x->s->stop); i++) {
		replace(x->s, x->r);
		if (x->r.chance(1, 3)) settle(x->s);
		if (x->r.chance(1, 2)) mon::real_usleep(x->r.below(600));
	}
	return NULL;
}
static void life(Srv* s) {
	Rng& r = s->r;
	s->k = kserver_init();
	kserver_set_opaque(s->k, free_opaque, s);
	s->reject = r.chance(1, 5);
	if (s->reject) kgl_set_flag((uint32_t*)&s->k->flags, KGL_SERVER_REJECT_NOSNI, true);
	for (int i = 0, n = r.below(4); i < n; i++) {
		char b[40];
		snprintf(b, sizeof b, "%c%d.site.test", 'a' + (int)r.below(12), i);
		s->names[b] = make_ctx(r, T12 | T13);
	}
	if (r.chance(1, 6)) {
		Ctx* c = make_ctx(r, T13);
		MON_CHECK(!kserver_bind(s->k, "no.such.address", 80, kgl_new_ssl_ctx(c->x)), "server.bind", "binding to nonsense succeeded");
		MON_CHECK(c->freed == 1, "ctx.kept", "the context of a failed bind was not freed");
		delete c;
		// (a failed bind with a context marks the server as encrypted)
		MON_CHECK(!kserver_bind(s->k, kx::loop4(), 0, NULL), "server.bind", "an encrypted server was bound without a context");
	}
	Ctx* first = NULL;
	if (kserver_test_flag(s->k, KGL_SERVER_SSL) || r.chance(3, 4)) {
		first = make_ctx(r, r.chance(1, 3) ? MASKS[r.below(2)] : (T12 | T13));
		s->hist.push_back(first);
		s->begun = s->stable = 0;
	}
	MON_CHECK(kserver_bind(s->k, kx::loop4(), 0, first ? kgl_new_ssl_ctx(first->x) : NULL), "server.bind", "kserver_bind failed");
	int epochs = 1 + r.below(2);
	for (int e = 0; e < epochs && !mon::violated(); e++) {
		for (int i = 0; i < 64; i++) mon_store32(&s->last[i], -1);
		mon_store32(&s->stop, 0);
		mon_store32(&s->linger_go, 0);
		open_it(s);
		mon::count("opened");
		settle(s);
		if (mon_load32(&s->begun) < 0) { replace(s, r); settle(s); mon::count("encrypted_later"); }
		volatile int done = 0;
		int started = 0;
		for (int step = 0, steps = 1 + r.below(3); step < steps; step++) {
			// undisturbed, but for the settings
			int n = 1 + r.below(6), how = r.below(4);
			Replacer x = { s, Rng(r.next()), 1 + (int)r.below(6) };
			pthread_t t;
			bool th = how == 0;
			if (th) { if (pthread_create(&t, NULL, replacer, &x)) mon::harness_error("thread"); }
			else if (how == 1) { for (int k = 1 + r.below(3); k; k--) replace(s, r); settle(s); }
			else if (how == 2) for (int k = 1 + r.below(3); k; k--) replace(s, r);
			traffic(s, r, n, true, &done);
			started += n;
			if (r.chance(1, 2)) { if (r.chance(1, 2)) mon_store32(&s->linger_go, 1); kx::wait_done(&done, started); }
			if (th) pthread_join(t, NULL);
			settle(s);
			mon_store32(&s->linger_go, 0);
		}
		if (r.chance(1, 2)) {
			// everything at rest: only the newest context is still held
			mon_store32(&s->linger_go, 1);
			kx::wait_done(&done, started);
			while (mon_load32(&s->live)) mon::real_usleep(300);
			settle(s); settle(s);
			int hi = mon_load32(&s->begun);
			Ctx* newest = s->at_index(hi);
			for (int i = 0; i < hi; i++) { Ctx* c = s->at_index(i); if (c != newest) while (!mon_load32(&c->freed)) mon::real_usleep(300); }
			MON_CHECK(!mon_load32(&newest->freed), "ctx.freed_early", "the context in use was freed");
			mon::count("contexts_let_go");
			mon_store32(&s->linger_go, 0);
		}
		bool last = e == epochs - 1;
		int n = r.below(8);
		while (mon_load32(&s->pending)) mon::real_usleep(200);
		Replacer x = { s, Rng(r.next()), (int)r.below(12) };
		pthread_t t;
		traffic(s, r, n, false, &done);
		started += n;
		bool th = r.chance(3, 4);
		if (th && pthread_create(&t, NULL, replacer, &x)) mon::harness_error("thread");
		if (r.chance(1, 2)) mon::real_usleep(r.below(3000));
		if (r.chance(1, 3)) on_loop(r, [s] { kserver_close(s->k); });
		else kserver_close(s->k);
		mon::count("closed");
		if (r.chance(1, 2)) mon_store32(&s->stop, 1);
		bool quick = !th && last && r.chance(1, 2);
		if (!quick && r.chance(1, 2)) { mon_store32(&s->linger_go, 1); kx::wait_done(&done, started); }
		if (th) pthread_join(t, NULL);
		if (!quick) while (listeners(s)) mon::real_usleep(300);
		mon::progress();
		if (last) {
			mon_store32(&s->released, 1);
			kserver_release(s->k);
		} else if (r.chance(1, 2)) replace(s, r);      // while it is closed
		mon_store32(&s->linger_go, 1);
		kx::wait_done(&done, started);
	}
	if (mon::violated()) return;
	while (!mon_load32(&s->freed)) mon::real_usleep(300);
	while (mon_load32(&s->live)) mon::real_usleep(300);
	for (auto& p : s->names) SSL_CTX_free(p.second->x);
	MON_CHECK(mon_load32(&s->sni_live) == 0, "sni.balance", "%d handles of names are not released", mon_load32(&s->sni_live));
	for (auto& p : s->names) { while (!mon_load32(&p.second->freed)) mon::real_usleep(300); delete p.second; }
	std::set<Ctx*> all(s->hist.begin(), s->hist.end());
	for (Ctx* c : all) { while (!mon_load32(&c->freed)) mon::real_usleep(300); }
	for (Ctx* c : all) { MON_CHECK(c->freed == 1, "ctx.freed_twice", "a context was freed %d times", c->freed); delete c; }
	for (auto& p : s->sessions) for (SSL_SESSION* x : p.second) SSL_SESSION_free(x);
	s->sessions.clear();
	mon::eval();
	mon::progress();
}
static std::vector<Srv*> current;
static void hang_info(char* b, size_t n) {
	size_t k = 0;
	for (Srv* s : current) if (k < n) {
		int kept = 0;
		for (Ctx* c : s->hist) kept += !mon_load32(&c->freed);
		k += snprintf(b + k, n - k, "server %d style %d: accepted %d live %d released %d freed %d contexts %d kept %d sni %d; ", s->id, s->style, s->accepted, s->live, s->released, s->freed, (int)s->hist.size(), kept, s->sni_live);
	}
}
static void common() {
	signal(SIGPIPE, SIG_IGN);
	kssl_init(npn, create_sni, free_sni);
	ctx_ix = SSL_CTX_get_ex_new_index(0, NULL, NULL, NULL, ctx_freed);
	ssl_ix = SSL_get_ex_new_index(0, NULL, ssl_made, NULL, ssl_freed);
	ca = make_cert("ca", 0, NULL, true);
	other_ca = make_cert("other ca", 0, NULL, true);
	inter = make_cert("intermediate", 0, &ca, true);
	client_cert = make_cert("client.test", 0, &ca);
	foreign_cert = make_cert("foreign.test", 0, &other_ca);
	ca_file = tmpdir() + "/ca.pem"; other_file = tmpdir() + "/other.pem";
	write_file(ca_file, ca.cert_pem);
	write_file(other_file, other_ca.cert_pem);
}
static void mode_server() {
	common();
	mon::on_hang = hang_info;
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	mischief = mon::iarg("mischief", 1);
	Rng R(mon::seed * 29 + 3);
	for (int i = 0; i < 3; i++) {
		raw_cctx[i] = SSL_CTX_new(TLS_client_method());
		SSL_CTX_set_min_proto_version(raw_cctx[i], MASKS[i] & T12 ? TLS1_2_VERSION : TLS1_3_VERSION);
		SSL_CTX_set_max_proto_version(raw_cctx[i], MASKS[i] & T13 ? TLS1_3_VERSION : TLS1_2_VERSION);
	}
	for (int i = 0; i < 16; i++) {
		KCtx k;
		k.mask = MASKS[R.below(3)];
		k.trust = R.below(6) == 0 ? 2 : R.below(2);      // 0 anyone, 1 our authority, 2 another
		k.alpn = some_protos(R, 4);
		Ctx* d = NULL;
		if (!k.alpn.empty()) { d = new Ctx; d->alpn = k.alpn; d->alpn_wire = wire(k.alpn); }
		k.data = d;
		k.x = kgl_ssl_ctx_new_client(NULL, k.trust == 0 ? NULL : k.trust == 1 ? ca_file.c_str() : other_file.c_str(), d);
		if (!k.x) mon::harness_error("client context");
		kgl_ssl_ctx_set_protocols(k.x, protocols_text(k.mask, &R).c_str());
		kcctx.push_back(k);
	}
	wrap::hooks.accept_fault = accept_again;
	int conc = mon::iarg("conc", 3), fds = wrap::open_fds();
	int64_t ssl0 = mon_load(&ssl_live);
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(50) : 0, R.below(2) ? R.below(20) : 0);
		mon::set_case("servers %d..%d", base, base + n - 1);
		std::vector<pthread_t> t;
		for (Srv* s : current) delete s;
		current.clear();
		for (int i = 0; i < n; i++) {
			Srv* s = new Srv;
			s->id = base + i;
			s->style = R.chance(1, 3) ? FIBER : OPEN;
			s->r = Rng(mon::hash(mon::seed, 9000 + s->id));
			current.push_back(s);
		}
		for (Srv* s : current) {
			pthread_t x;
			if (pthread_create(&x, NULL, [](void* p) -> void* { life((Srv*)p); return NULL; }, s)) mon::harness_error("thread");
			t.push_back(x);
		}
		for (pthread_t x : t) pthread_join(x, NULL);
		if (mon::violated()) break;
		kx::wait_fiber_count(0);
		for (int i = 0; i < 400 && (wrap::open_fds() != fds || mon_load(&ssl_live) != ssl0); i++) mon::real_usleep(500);
		MON_CHECK(wrap::open_fds() == fds, "server.descriptors", "%d descriptors are open after a round, %d before: %s", wrap::open_fds(), fds, wrap::fd_list().c_str());
		MON_CHECK(mon_load(&ssl_live) == ssl0, "tls.sessions", "%lld TLS connections are not freed", (long long)(mon_load(&ssl_live) - ssl0));
	}
}
// ---- contexts by themselves ----------------------------------------------------------------
static volatile int64_t mem_live, mem_count;
static volatile int64_t fail_at = -1;
static bool mem_fails() {
	int64_t n = mon_fetch_add(&mem_count, 1);
	return n == fail_at;
}
static void* mem_malloc(size_t n, const char*, int) { if (mem_fails()) return NULL; void* p = malloc(n); if (p) mon_fetch_add(&mem_live, 1); return p; }
static void* mem_realloc(void* p, size_t n, const char*, int) { if (mem_fails()) return NULL; void* q = realloc(p, n); if (q && !p) mon_fetch_add(&mem_live, 1); return q; }
static void mem_free(void* p, const char*, int) { if (p) mon_fetch_add(&mem_live, -1); free(p); }

struct Shake { bool ok; int version; long serial; bool reused; int verify; SSL_SESSION* sess; };
// a handshake in memory, and some bytes both ways
static Shake shake(SSL_CTX* server, SSL_CTX* client, SSL_SESSION* offer = NULL, bool keep = false) {
	Shake h = { false, 0, -1, false, 0, NULL };
	SSL *a = SSL_new(server), *b = SSL_new(client);
	BIO *x = NULL, *y = NULL;
	BIO_new_bio_pair(&x, 0, &y, 0);
	SSL_set_bio(a, x, x); SSL_set_bio(b, y, y);
	SSL_set_accept_state(a); SSL_set_connect_state(b);
	if (offer) SSL_set_session(b, offer);
	kssl_status sa = ret_want_read, sb = ret_want_read;
	for (int i = 0; i < 40; i++) {
		if (sb != ret_ok && sb != ret_error) sb = kgl_ssl_handshake(b);
		if (sa != ret_ok && sa != ret_error) sa = kgl_ssl_handshake(a);
		if ((sa == ret_ok || sa == ret_error) && (sb == ret_ok || sb == ret_error)) break;
	}
	if (sa == ret_ok && sb == ret_ok) {
		char m[5];
		SSL_write(a, "hello", 5);
		bool g = SSL_read(b, m, 5) == 5 && !memcmp(m, "hello", 5);
		h.ok = g;
		h.version = SSL_version(b);
		h.serial = serial_of(b);
		h.reused = SSL_session_reused(b);
		h.verify = (int)SSL_get_verify_result(b);
		if (keep) h.sess = SSL_get1_session(b);
	}
	for (SSL* q : { a, b }) SSL_set_shutdown(q, SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN);     // (their sessions stay good)
	SSL_free(a); SSL_free(b);
	ERR_clear_error();
	return h;
}
static std::string tmp_pem(const std::string& s) {
	static volatile int n;
	char b[32];
	snprintf(b, sizeof b, "/p%d.pem", mon_fetch_add32(&n, 1) % 8);
	std::string p = tmpdir() + b;
	write_file(p, s);
	return p;
}
// one server context out of texts, by file or by buffer; NULL text: none given
static SSL_CTX* load(bool by_file, const std::string* cert, const std::string* key, const char* caf, void* data = NULL) {
	if (by_file) {
		std::string c = cert ? tmp_pem(*cert) : "", k = tmp_pem(*key);
		return kgl_ssl_ctx_new_server(cert ? c.c_str() : NULL, k.c_str(), NULL, caf, data);
	}
	std::string c = cert ? "data:" + *cert : "", k = "data:" + *key;
	kgl_ref_str_t a = ref_of(c), b = ref_of(k);
	return kgl_ssl_ctx_new_server2(cert ? &a : NULL, &b, NULL, caf, data);
}
static const char* KINDS[] = { "cert and key", "one text for both", "empty cert name", "chain", "other key", "missing file", "empty text", "garbage", "cut short",
	"flipped byte", "broken chain", "no key", "authority missing", "authority garbage", "client authority", "client trusts", "client authority missing", "load into a context", "ciphers", "reload", "sessions" };
enum { NKINDS = sizeof KINDS / sizeof *KINDS };
static std::string cut(const std::string& s, Rng& r) { return s.substr(0, 30 + r.below((uint32_t)(s.size() - 70))); }
static std::string garbage(Rng& r) { std::string s; for (int i = 0, n = 1 + r.below(400); i < n; i++) s += (char)(1 + r.below(255)); return s; }
static SSL_CTX* plain_client;
static void want_refused(SSL_CTX* x, const char* kind, const char* oracle = "ctx.invalid") {
	MON_CHECK(!x, oracle, "%s: an invalid setting was taken", kind);
	if (x) SSL_CTX_free(x);
	mon::count("refused_settings");
}
static void want_good(SSL_CTX* x, const Cert& c, const char* kind) {
	MON_CHECK(x, "ctx.valid", "%s: a valid setting was refused", kind);
	if (!x) return;
	MON_CHECK(!ERR_peek_error(), "ctx.errors", "%s: a valid setting left an error behind", kind);
	Shake h = shake(x, plain_client);
	long serial = ASN1_INTEGER_get(X509_get0_serialNumber(c.x));
	MON_CHECK(h.ok && h.serial == serial, "ctx.works", "%s: the context does not work (%d, certificate %ld instead of %ld)", kind, h.ok, h.serial, serial);
	SSL_CTX_free(x);
	mon::count("accepted_settings");
}
struct Certs { Cert leaf, under, rsa; };
static void one_kind(int kind, uint64_t seed, Certs& c) {
	Rng r(seed);
	bool f = r.chance(1, 2);
	const char* K = KINDS[kind];
	Cert& l = r.chance(1, 3) ? c.rsa : c.leaf;
	const std::string &ct = l.cert_pem, &kt = l.key_pem;
	std::string both = r.chance(1, 2) ? ct + kt : kt + ct, empty;
	ERR_clear_error();
	switch (kind) {
	case 0: want_good(load(f, &ct, &kt, NULL), l, K); break;
	case 1: want_good(load(f, NULL, &both, NULL), l, K); break;
	case 2: {
		if (f) { std::string p = tmp_pem(both); want_good(kgl_ssl_ctx_new_server("", p.c_str(), NULL, NULL, NULL), l, K); }
		else { std::string k = "data:" + both; kgl_ref_str_t a = ref_of(empty), b = ref_of(k); want_good(kgl_ssl_ctx_new_server2(&a, &b, NULL, NULL, NULL), l, K); }
		break;
	}
	case 3: {
		bool with = r.chance(2, 3);
		std::string t = c.under.cert_pem + (with ? inter.cert_pem : "");
		SSL_CTX* x = load(f, &t, &c.under.key_pem, NULL);
		SSL_CTX* cl = kgl_ssl_ctx_new_client(NULL, ca_file.c_str(), NULL);
		MON_CHECK(x && cl, "ctx.valid", "%s: a valid setting was refused", K);
		if (x && cl) { Shake h = shake(x, cl); MON_CHECK(h.ok == with, "ctx.chain", "with%s its chain a certificate was %s", with ? "" : "out", h.ok ? "trusted" : "not trusted"); }
		SSL_CTX_free(x); SSL_CTX_free(cl);
		mon::count("chains");
		break;
	}
	case 4: want_refused(load(f, &ct, r.chance(1, 2) ? &foreign_cert.key_pem : &(&l == &c.rsa ? c.leaf : c.rsa).key_pem, NULL), K); break;
	case 5: {
		std::string a = tmp_pem(ct), b = tmp_pem(kt), no = tmpdir() + "/no/such/file";
		int w = 1 + r.below(3);
		if (f) want_refused(kgl_ssl_ctx_new_server(w & 1 ? no.c_str() : a.c_str(), w & 2 ? no.c_str() : b.c_str(), NULL, NULL, NULL), K);
		else { kgl_ref_str_t x = ref_of(w & 1 ? no : a), y = ref_of(w & 2 ? no : b); want_refused(kgl_ssl_ctx_new_server2(&x, &y, NULL, NULL, NULL), K); }
		break;
	}
	case 6: { int w = 1 + r.below(3); want_refused(load(f, w & 1 ? &empty : &ct, w & 2 ? &empty : &kt, NULL), K); break; }
	case 7: { std::string g = garbage(r); int w = 1 + r.below(3); want_refused(load(f, w & 1 ? &g : &ct, w & 2 ? &g : &kt, NULL), K); break; }
	case 8: { std::string a = cut(ct, r), b = cut(kt, r); int w = 1 + r.below(3); want_refused(load(f, w & 1 ? &a : &ct, w & 2 ? &b : &kt, NULL), K); break; }
	case 9: {
		std::string a = ct, b = kt;
		std::string& t = r.chance(1, 2) ? a : b;
		t[r.below((uint32_t)t.size())] ^= 1 << r.below(7);
		SSL_CTX* x = load(f, &a, &b, NULL);
		if (x) { MON_CHECK(SSL_CTX_check_private_key(x), "ctx.half", "%s: a context with a key that does not fit", K); shake(x, plain_client); SSL_CTX_free(x); }
		mon::count("flipped_settings");
		break;
	}
	case 10: {
		std::string t = ct + (r.chance(1, 2) ? cut(inter.cert_pem, r) : "-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n");
		if (r.chance(1, 2)) t = ct + inter.cert_pem + t.substr(ct.size());
		want_refused(load(f, &t, &kt, NULL), K);
		break;
	}
	case 11: want_refused(load(f, r.chance(1, 2) ? NULL : &ct, &ct, NULL), K); break;
	case 12: want_refused(load(f, &ct, &kt, "/no/such/authority"), K); break;
	case 13: { std::string p = tmpdir() + "/badca.pem"; write_file(p, garbage(r)); want_refused(load(f, &ct, &kt, p.c_str()), K); break; }
	case 14: {
		SSL_CTX* x = load(f, &ct, &kt, ca_file.c_str());
		MON_CHECK(x, "ctx.valid", "%s: a valid setting was refused", K);
		if (!x) break;
		int who = r.below(3);
		SSL_CTX* cl = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
		if (r.chance(1, 2)) kgl_ssl_ctx_set_protocols(cl, "TLSv1.2");
		if (who < 2) { Cert& m = who ? foreign_cert : client_cert; SSL_CTX_use_certificate(cl, m.x); SSL_CTX_use_PrivateKey(cl, m.key); }
		Shake h = shake(x, cl, NULL, true);
		MON_CHECK(h.ok == (who == 0), "ctx.client", "a client %s was %s", who == 0 ? "of the authority" : who == 1 ? "of another authority" : "without a certificate", h.ok ? "taken" : "refused");
		if (h.sess) {
			Shake h2 = shake(x, cl, h.sess);
			MON_CHECK(h2.ok, "ctx.resume", "a client that comes back with its session was refused");
			if (h2.reused) mon::count("client_sessions_resumed");
			SSL_SESSION_free(h.sess);
		}
		SSL_CTX_free(x); SSL_CTX_free(cl);
		mon::count("client_certificates");
		break;
	}
	case 15: {
		int t = r.below(3);
		SSL_CTX* x = load(f, &ct, &kt, NULL);
		SSL_CTX* cl = kgl_ssl_ctx_new_client(NULL, t == 0 ? NULL : t == 1 ? ca_file.c_str() : other_file.c_str(), NULL);
		MON_CHECK(x && cl, "ctx.valid", "%s: a valid setting was refused", K);
		if (x && cl) { Shake h = shake(x, cl); MON_CHECK(h.ok == (t != 2), "ctx.trust", "a client trusting %s %s the server", t == 0 ? "anyone" : t == 1 ? "its authority" : "another authority", h.ok ? "took" : "refused"); }
		SSL_CTX_free(x); SSL_CTX_free(cl);
		mon::count("client_trust");
		break;
	}
	case 16: {
		std::string p = tmpdir() + "/badca.pem";
		write_file(p, garbage(r));
		want_refused(kgl_ssl_ctx_new_client(NULL, r.chance(1, 2) ? "/no/such/authority" : p.c_str(), NULL), K);
		break;
	}
	case 17: {
		// a pair loaded into a context by hand
		SSL_CTX* x = load(f, &ct, &kt, NULL);
		Cert& o = &l == &c.rsa ? c.leaf : c.rsa;
		std::string a = tmp_pem(o.cert_pem), b = tmp_pem(o.key_pem);
		MON_CHECK(x && kgl_ssl_ctx_load_cert_key(x, a.c_str(), b.c_str()), "ctx.valid", "%s: refused", K);
		SSL_CTX_free(x);
		break;
	}
	case 18: {
		SSL_CTX* x = load(f, &ct, &kt, NULL);
		if (!x) break;
		MON_CHECK(kgl_ssl_ctx_set_cipher_list(x, r.chance(1, 2) ? "HIGH" : "ECDHE+AESGCM:AES128-SHA"), "ctx.cipher", "a valid cipher list was refused");
		MON_CHECK(!kgl_ssl_ctx_set_cipher_list(x, r.chance(1, 2) ? "NO-SUCH-CIPHER" : "nonsense:!ALL"), "ctx.cipher", "an invalid cipher list was taken");
		SSL_CTX_free(x);
		mon::count("cipher_lists");
		break;
	}
	case 19: {
		SSL_CTX* x = load(f, &ct, &kt, NULL);
		std::string a = tmp_pem(ct), b = tmp_pem(r.chance(1, 2) ? garbage(r) : foreign_cert.key_pem);
		MON_CHECK(!kgl_ssl_ctx_load_cert_key(x, a.c_str(), b.c_str()), "ctx.invalid", "%s: an invalid pair was taken", K);
		SSL_CTX_free(x);
		break;
	}
	case 20: {
		// two contexts that can read each other's tickets: sessions of one are not taken by the other
		Cert& o = &l == &c.rsa ? c.leaf : c.rsa;
		const char* caf = r.chance(1, 2) ? NULL : ca_file.c_str();
		SSL_CTX *x = load(f, &ct, &kt, caf), *y = load(f, &o.cert_pem, &o.key_pem, caf);
		SSL_CTX* cl = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
		MON_CHECK(x && y, "ctx.valid", "%s: a valid setting was refused", K);
		if (x && y) {
			unsigned char keys[80];
			for (unsigned char& k : keys) k = (unsigned char)r.next();
			if (SSL_CTX_set_tlsext_ticket_keys(x, keys, 80) != 1 || SSL_CTX_set_tlsext_ticket_keys(y, keys, 80) != 1) mon::harness_error("ticket keys");
			if (r.chance(1, 2)) kgl_ssl_ctx_set_protocols(cl, "TLSv1.2");
			SSL_CTX_use_certificate(cl, client_cert.x); SSL_CTX_use_PrivateKey(cl, client_cert.key);
			Shake h = shake(x, cl, NULL, true);
			MON_CHECK(h.ok && h.sess, "ctx.works", "%s: the context does not work", K);
			if (h.sess) {
				Shake own = shake(x, cl, h.sess), cross = shake(y, cl, h.sess);
				MON_CHECK(own.ok, "ctx.resume", "a client that comes back with its session was refused");
				if (own.reused) mon::count("own_sessions_resumed");
				MON_CHECK(!cross.reused, "ctx.session", "a session made with another certificate was taken");
				MON_CHECK(cross.ok && cross.serial == ASN1_INTEGER_get(X509_get0_serialNumber(o.x)), "ctx.works", "a client that brings a session of another context was %s", cross.ok ? "shown another certificate" : "refused");
				mon::count("foreign_sessions_offered");
				SSL_SESSION_free(h.sess);
			}
		}
		SSL_CTX_free(x); SSL_CTX_free(y); SSL_CTX_free(cl);
		break;
	}
	}
	ERR_clear_error();
}
static void mode_ctx() {
	kasync_init();
	common();
	plain_client = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	SSL_CTX_set_session_cache_mode(plain_client, SSL_SESS_CACHE_OFF);     // (it would keep every session)
	Certs c;
	c.leaf = make_cert("leaf.test", 0, &ca);
	c.under = make_cert("under.test", 0, &inter);
	c.rsa = make_cert("rsa.test", 1, &ca);
	for (int i = 0; i < NKINDS; i++) for (int k = 0; k < 12; k++) one_kind(i, mon::hash(mon::seed, 100 + k), c);   // (what OpenSSL keeps for good)
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		int kind = i % NKINDS;
		uint64_t seed = mon::hash(mon::seed, 1000 + i);
		mon::set_case("context %d: %s", i, KINDS[kind]);
		one_kind(kind, seed, c);
		int fds = wrap::open_fds();
		int64_t m0 = mon_load(&mem_live), n0 = mon_load(&mem_count), s0 = mon_load(&ssl_live);
		one_kind(kind, seed, c);
		int64_t m1 = mon_load(&mem_live);
		for (int again = 0; again < 3; again++) one_kind(kind, seed, c);
		int64_t m2 = mon_load(&mem_live);
		MON_CHECK(m2 - m1 < 3 || m1 == m0, "ctx.leak", "%s: %lld blocks stay allocated by each call", KINDS[kind], (long long)(m2 - m1) / 3);
		MON_CHECK(wrap::open_fds() == fds, "ctx.descriptors", "%s: descriptors stay open: %s", KINDS[kind], wrap::fd_list().c_str());
		MON_CHECK(mon_load(&ssl_live) == s0, "ctx.sessions", "connections are not freed");
		mon::count("allocations_watched", mon_load(&mem_count) - n0);
		mon::cover(mon::hash(kind, seed));
		mon::eval();
		mon::progress();
	}
}
// memory runs out somewhere while a context is made
static void mode_memory() {
	kasync_init();
	common();
	Certs c;
	c.leaf = make_cert("leaf.test", 0, &ca);
	c.under = make_cert("under.test", 0, &inter);
	c.rsa = make_cert("rsa.test", 1, &ca);
	plain_client = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	SSL_CTX_set_session_cache_mode(plain_client, SSL_SESS_CACHE_OFF);
	for (int i = 0; i < NKINDS; i++) for (int k = 0; k < 6; k++) one_kind(i, mon::hash(mon::seed, 100 + k), c);
	Rng r(mon::seed * 11 + 1);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		bool f = r.chance(1, 2), client = r.chance(1, 8), bad = r.chance(1, 6);
		std::string t = c.under.cert_pem + inter.cert_pem, key = bad ? foreign_cert.key_pem : c.under.key_pem;
		const char* caf = r.chance(1, 3) ? ca_file.c_str() : NULL;
		std::string cf = tmp_pem(t), kf = tmp_pem(key), cd = "data:" + t, kd = "data:" + key;
		auto make = [&]() -> SSL_CTX* {
			if (client) return kgl_ssl_ctx_new_client(NULL, caf, NULL);
			if (f) return kgl_ssl_ctx_new_server(cf.c_str(), kf.c_str(), NULL, caf, NULL);
			kgl_ref_str_t a = ref_of(cd), b = ref_of(kd);
			return kgl_ssl_ctx_new_server2(&a, &b, NULL, caf, NULL);
		};
		auto once = [&](int64_t at) {
			int64_t n0 = mon_load(&mem_count);
			fail_at = at < 0 ? -1 : n0 + at;
			SSL_CTX* x = make();
			fail_at = -1;
			n0 = mon_load(&mem_count) - n0;
			if (bad && !client) MON_CHECK(!x, "ctx.invalid", "an invalid setting was taken");
			if (x && at >= 0) mon::count("made_all_the_same");
			if (!x && at >= 0) mon::count("memory_refused");
			if (x) SSL_CTX_free(x);
			ERR_clear_error();
			return n0;
		};
		once(-1);
		int64_t n = once(-1);
		for (int k = 0; k < 12; k++) {
			int64_t at = r.chance(1, 2) ? r.below((uint32_t)n) : n - 1 - r.below((uint32_t)std::min<int64_t>(n, 300));
			mon::set_case("memory %d: %s %s, allocation %d of %d fails", i, client ? "client" : "server", f ? "file" : "buffer", (int)at, (int)n);
			once(at);
			int64_t m0 = mon_load(&mem_live);
			for (int j = 0; j < 3; j++) once(at);
			int64_t m = mon_load(&mem_live) - m0;
			MON_CHECK(m < 3, "ctx.leak", "%lld blocks stay allocated by each try", (long long)m / 3);
			mon::count("allocations_failed", 4);
			mon::cover(mon::hash(mon::hash(f, client), mon::hash(bad, at)));
		}
		// ... and while a connection gets its session
		SSL_CTX* x = client || bad ? plain_client : make();
		auto connect = [&](int64_t at) {
			int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
			sockaddr_i a;
			memset(&a, 0, sizeof a);
			a.v4.sin_family = AF_INET;
			kconnection* cn = kconnection_new(&a);
			cn->st.fd = fd;
			int64_t n0 = mon_load(&mem_count);
			fail_at = at < 0 ? -1 : n0 + at;
			bool ok = x == plain_client ? kconnection_ssl_connect(cn, x, "some.test") : kconnection_ssl_accept(cn, x);
			fail_at = -1;
			n0 = mon_load(&mem_count) - n0;
			MON_CHECK(ok ? cn->st.ssl && cn->st.ssl->ssl && SSL_get_fd(cn->st.ssl->ssl) == fd : !cn->st.ssl && at >= 0, "tls.half", "a connection was %s a session", ok ? "said to have" : "refused");
			if (!ok) mon::count("sessions_refused");
			kconnection_real_destroy(cn);
			ERR_clear_error();
			return n0;
		};
		int64_t m = connect(-1);
		m = connect(-1);
		int fds = wrap::open_fds();
		for (int k = 0; k < 6; k++) {
			int64_t at = r.below((uint32_t)m);
			mon::set_case("memory %d: session, allocation %d of %d fails", i, (int)at, (int)m);
			connect(at);
			int64_t m0 = mon_load(&mem_live);
			for (int j = 0; j < 3; j++) connect(at);
			MON_CHECK(mon_load(&mem_live) - m0 < 3, "ctx.leak", "%lld blocks stay allocated by each session", (long long)(mon_load(&mem_live) - m0) / 3);
		}
		MON_CHECK(wrap::open_fds() == fds, "ctx.descriptors", "descriptors stay open: %s", wrap::fd_list().c_str());
		if (x != plain_client) SSL_CTX_free(x);
		mon::eval();
		mon::progress();
	}
}
// every set of versions against every range of the client's
static void mode_versions() {
	kasync_init();
	common();
	Rng r(mon::seed * 7 + 1);
	Cert l = make_cert("leaf.test", 0, &ca), l2 = make_cert("rsa.test", 1, &ca);
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		int mask = i % 16;
		Cert& m = r.chance(1, 4) ? l2 : l;
		SSL_CTX* x = load(false, &m.cert_pem, &m.key_pem, NULL);
		std::string t = protocols_text(mask, &r);
		mon::set_case("versions '%s'", t.c_str());
		if (r.chance(1, 3)) kgl_ssl_ctx_set_protocols(x, protocols_text(r.below(16), &r).c_str());     // the last one counts
		if (i >= 16 && r.chance(1, 16)) { SSL_CTX_free(x); x = load(false, &m.cert_pem, &m.key_pem, NULL); kgl_ssl_ctx_set_protocols(x, r.chance(1, 2) ? NULL : ""); mask = 15; }
		else kgl_ssl_ctx_set_protocols(x, t.c_str());
		if (!kgl_ssl_ctx_set_cipher_list(x, "ALL:@SECLEVEL=0")) mon::harness_error("ciphers");
		for (int lo = 0; lo < 4; lo++) for (int hi = lo; hi < 4; hi++) {
			int cm = 0;
			for (int k = lo; k <= hi; k++) cm |= 1 << k;
			SSL_CTX* cl = SSL_CTX_new(TLS_client_method());
			SSL_CTX_set_cipher_list(cl, "ALL:@SECLEVEL=0");
			SSL_CTX_set_min_proto_version(cl, VERSION[lo]);
			SSL_CTX_set_max_proto_version(cl, VERSION[hi]);
			Shake h = shake(x, cl);
			int want = highest(mask & cm);
			// (a client takes the choice of less than its best from a server that could do 1.2 for an attack)
			bool open = (want == TLS1_VERSION || want == TLS1_1_VERSION) && VERSION[hi] > want && (mask & (T12 | T13));
			if (open) mon::count("versions_open");
			else MON_CHECK(h.ok ? h.version == want : !want, "tls.version", "the server allows '%s', the client %s to %s: version %x negotiated instead of %x", t.c_str(), VNAME[lo], VNAME[hi], h.version, want);
			mon::count(want ? "versions_agreed" : "versions_refused");
			SSL_CTX_free(cl);
			mon::cover(mon::hash(mask, cm));
		}
		SSL_CTX_free(x);
		mon::eval();
		mon::progress();
	}
}
int main(int argc, char** argv) {
	mon::init(argc, argv, "C26");
	std::string m = mon::arg("mode", "server");
	if (m == "ctx" || m == "memory") CRYPTO_set_mem_functions(mem_malloc, mem_realloc, mem_free);
	mon::watchdog(mon::iarg("watchdog", 25));
	kx::loop4();
	if (m == "server") mode_server();
	else if (m == "ctx") mode_ctx();
	else if (m == "memory") mode_memory();
	else mode_versions();
	mon::finish();
}
