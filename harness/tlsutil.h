// Keys, certificates and contexts made at start-up, and a relay that stands between two ends.
#pragma once
#include "net.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/ec.h>
extern "C" int __real_SSL_set_fd(SSL*, int);
namespace tls {
struct Cert { EVP_PKEY* key; X509* x; std::string cert_pem, key_pem; };
static std::string pem_of(std::function<void(BIO*)> f) {
	BIO* b = BIO_new(BIO_s_mem());
	f(b);
	char* p;
	long n = BIO_get_mem_data(b, &p);
	std::string s(p, n);
	BIO_free(b);
	return s;
}
// kind 0: EC P-256, 1: RSA 2048
static Cert make_cert(const char* cn, int kind, Cert* ca = NULL, bool is_ca = false) {
	static long serial = 1000;
	Cert c;
	c.key = kind ? EVP_RSA_gen(2048) : EVP_EC_gen("P-256");
	c.x = X509_new();
	X509_set_version(c.x, 2);
	ASN1_INTEGER_set(X509_get_serialNumber(c.x), ++serial);
	X509_gmtime_adj(X509_getm_notBefore(c.x), -86400L * 400);
	X509_gmtime_adj(X509_getm_notAfter(c.x), 86400L * 4000);
	X509_set_pubkey(c.x, c.key);
	X509_NAME* n = X509_get_subject_name(c.x);
	X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)cn, -1, -1, 0);
	X509_set_issuer_name(c.x, ca ? X509_get_subject_name(ca->x) : n);
	X509V3_CTX v;
	X509V3_set_ctx(&v, ca ? ca->x : c.x, c.x, NULL, NULL, 0);
	X509_EXTENSION* e = X509V3_EXT_conf_nid(NULL, &v, NID_basic_constraints, is_ca ? "critical,CA:TRUE" : "CA:FALSE");
	X509_add_ext(c.x, e, -1);
	X509_EXTENSION_free(e);
	if (!X509_sign(c.x, ca ? ca->key : c.key, EVP_sha256())) mon::harness_error("X509_sign");
	c.cert_pem = pem_of([&](BIO* b) { PEM_write_bio_X509(b, c.x); });
	c.key_pem = pem_of([&](BIO* b) { PEM_write_bio_PrivateKey(b, c.key, NULL, NULL, 0, NULL, NULL); });
	return c;
}
static kgl_ref_str_t ref_of(const std::string& s) { kgl_ref_str_t r; memset(&r, 0, sizeof r); r.data = (char*)s.c_str(); r.len = (int)s.size(); return r; }
static SSL_CTX* server_ctx(const Cert& c, const char* protocols = NULL, void* data = NULL) {
	std::string a = "data:" + c.cert_pem, b = "data:" + c.key_pem;
	kgl_ref_str_t ra = ref_of(a), rb = ref_of(b);
	SSL_CTX* x = kgl_ssl_ctx_new_server2(&ra, &rb, NULL, NULL, data);
	if (!x) mon::harness_error("server context");
	if (protocols) kgl_ssl_ctx_set_protocols(x, protocols);
	return x;
}
static void write_file(const std::string& path, const std::string& s) {
	FILE* f = fopen(path.c_str(), "w");
	if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) mon::harness_error("cannot write %s", path.c_str());
	fclose(f);
}

// The socket below a session of an event loop would block although it could go on (the state
// changes again at once, so a new edge is reported); see inject(). Harnesses that want it wrap SSL_set_fd.
static long bio_io(BIO* b, int oper, const char*, size_t, int, long, int ret, size_t*) {
	if (oper != BIO_CB_WRITE && oper != BIO_CB_READ) return ret;
	// (OpenSSL writes data of a server in the early phase through a buffer and forgets what the socket does not take)
	SSL* ssl = (SSL*)BIO_get_callback_arg(b);
	if (oper == BIO_CB_WRITE && SSL_is_server(ssl) && !SSL_is_init_finished(ssl) && SSL_get_early_data_status(ssl) == SSL_EARLY_DATA_ACCEPTED) return ret;
	// (and a peer that half-closes meanwhile ends the wait; its own handshake is complete when tickets are written)
	if (oper == BIO_CB_WRITE && SSL_get_state(ssl) == TLS_ST_SW_SESSION_TICKET) return ret;
	if (!net::again_num || (int)(net::xr() % 100) >= net::again_num) return ret;
	int fd = -1;
	BIO_get_fd(b, &fd);
	BIO_clear_retry_flags(b);
	if (oper == BIO_CB_WRITE) BIO_set_retry_write(b); else BIO_set_retry_read(b);
	mon::count(oper == BIO_CB_WRITE ? "injected.tls_write_blocks" : "injected.tls_read_blocks");
	wrap::rearm(fd);
	errno = EAGAIN;
	return -1;
}
static void blocks(SSL* ssl) {
	if (kx::my_loop() < 0) return;
	BIO* b = SSL_get_wbio(ssl);
	if (b && BIO_method_type(b) == BIO_TYPE_SOCKET) { BIO_set_callback_ex(b, bio_io); BIO_set_callback_arg(b, (char*)ssl); }
}

// A relay: accepts one connection, connects on, forwards both directions in pieces of seeded
// sizes and delays, and records what passed. It can flip a byte, or cut the connection, after
// a number of bytes in one direction.
struct Relay {
	int lfd, sfd = -1, cfd = -1;
	sockaddr_i addr;            // where clients connect
	sockaddr_i to;
	Rng r;
	std::string wire[2];        // 0: client to server, 1: server to client
	int64_t flip_at[2] = { -1, -1 };
	int64_t cut_at[2] = { -1, -1 };
	bool reset_on_cut = false, cut = false;
	volatile bool flipped = false;
	bool deaf = false;          // flip inside an encrypted record, and let nothing back: the victim has to notice by itself
	int rec_head[2] = { 0, 0 }, rec_left[2] = { 0, 0 }, rec_type[2] = { 0, 0 }, deaf_dir = -1;
	int frag = 0;               // 0 whole, 1 mixed, 2 tiny
	bool keep = true;
	pthread_t th;
	volatile int stop = 0;
	volatile int64_t in[2] = { 0, 0 }, out[2] = { 0, 0 };
	volatile int why = 0;
};
static void relay_listen(Relay* w) {
	w->lfd = socket(AF_INET, SOCK_STREAM, 0);
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	inet_pton(AF_INET, kx::loop4(), &a.sin_addr);
	if (bind(w->lfd, (sockaddr*)&a, sizeof a) || listen(w->lfd, 4)) mon::harness_error("relay listen");
	socklen_t l = sizeof a;
	getsockname(w->lfd, (sockaddr*)&a, &l);
	memset(&w->addr, 0, sizeof w->addr);
	memcpy(&w->addr.v4, &a, sizeof a);
}
static void* relay_main(void* arg) {
	Relay* w = (Relay*)arg;
	struct pollfd lp = { w->lfd, POLLIN, 0 };
	while (poll(&lp, 1, 20) == 0) if (w->stop) { close(w->lfd); return NULL; }
	w->cfd = accept(w->lfd, NULL, NULL);
	close(w->lfd);
	if (w->cfd < 0) return NULL;
	w->sfd = socket(w->to.v4.sin_family, SOCK_STREAM, 0);
	if (connect(w->sfd, (sockaddr*)&w->to, w->to.v4.sin_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) { close(w->cfd); close(w->sfd); return NULL; }
	int one = 1;
	setsockopt(w->cfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	setsockopt(w->sfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	int fd[2][2] = { { w->cfd, w->sfd }, { w->sfd, w->cfd } };
	std::string q[2];
	volatile int64_t *in = w->in, *out = w->out;
	int idle = 0;
	bool eof[2] = { false, false }, done[2] = { false, false };
	std::vector<char> buf(16384);
	while (!(done[0] && done[1])) {
		struct pollfd p[4];
		int n = 0, who[4];
		for (int d = 0; d < 2; d++) {
			if (!eof[d] && q[d].size() < 20000) { p[n] = { fd[d][0], POLLIN, 0 }; who[n++] = d; }
			if (!q[d].empty()) { p[n] = { fd[d][1], POLLOUT, 0 }; who[n++] = d + 2; }
		}
		if (!n) break;
		// (a flip in the clear part of a handshake may announce bytes that never come: then end it)
		if (poll(p, n, 200) != 0) idle = 0;
		else if (w->flipped && w->deaf_dir < 0 && ++idle > 4) break;
		if (w->stop > 1) break;
		bool dead = false;
		for (int i = 0; i < n && !dead; i++) {
			if (!p[i].revents) continue;
			int d = who[i] & 1;
			if (who[i] < 2) {
				ssize_t k = recvfrom(fd[d][0], buf.data(), 1 + w->r.below((uint32_t)buf.size()), MSG_DONTWAIT, NULL, NULL);
				if (k > 0) {
					if (w->deaf && w->flip_at[d] >= 0) for (ssize_t b = 0; b < k; b++) {
						// (where in a record is this byte?)
						if (w->rec_left[d] == 0) {
							unsigned char c = buf[b];
							int h = w->rec_head[d]++;
							if (h == 0) w->rec_type[d] = c;
							if (h == 3) w->rec_left[d] = -(c << 8) - 1;     // kept negative until the head is complete
							continue;
						}
						if (w->rec_left[d] < 0) { w->rec_left[d] = -(w->rec_left[d] + 1) + (unsigned char)buf[b]; w->rec_head[d] = 0; continue; }
						w->rec_left[d]--;
						if (w->deaf_dir < 0 && in[d] + b >= w->flip_at[d] && w->rec_type[d] == 23) { buf[b] ^= 1 << w->r.below(8); w->deaf_dir = d; w->flipped = true; }
					} else if (w->flip_at[d] >= in[d] && w->flip_at[d] < in[d] + k) { buf[w->flip_at[d] - in[d]] ^= 1 << w->r.below(8); w->flipped = true; }
					if (w->keep) w->wire[d].append(buf.data(), k);
					if (w->deaf_dir != !d) q[d].append(buf.data(), k);
					in[d] += k;
				} else if (k == 0) eof[d] = true;
				else if (errno != EAGAIN) dead = true;
			} else {
				size_t m = q[d].size();
				if (w->frag == 2) m = std::min<size_t>(m, 1 + w->r.below(60));
				else if (w->frag == 1) m = std::min<size_t>(m, 1 + w->r.below(w->r.chance(1, 2) ? 30 : 3000));
				if (w->cut_at[d] >= 0) m = std::min<size_t>(m, w->cut_at[d] - out[d]);
				ssize_t k = m ? sendto(fd[d][1], q[d].data(), m, MSG_DONTWAIT | MSG_NOSIGNAL, NULL, 0) : 0;
				if (k > 0) { q[d].erase(0, k); out[d] += k; }
				else if (k < 0 && errno != EAGAIN) dead = true;
				if (w->cut_at[d] >= 0 && out[d] >= w->cut_at[d]) { w->cut = true; dead = true; }
			}
		}
		for (int d = 0; d < 2; d++) if (!done[d] && eof[d] && q[d].empty()) { shutdown(fd[d][1], SHUT_WR); done[d] = true; }
		if (dead) break;
		if (w->frag && w->r.chance(1, 8)) mon::real_usleep(w->r.below(200));
	}
	w->why = 1 + done[0] + 2 * done[1] + 4 * eof[0] + 8 * eof[1];
	if (w->reset_on_cut && w->cut) {
		struct linger lg = { 1, 0 };
		setsockopt(w->cfd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
		setsockopt(w->sfd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	}
	close(w->cfd);
	close(w->sfd);
	return NULL;
}
static void relay_start(Relay* w) {
	relay_listen(w);
	if (pthread_create(&w->th, NULL, relay_main, w)) mon::harness_error("relay thread");
}
static void relay_join(Relay* w) { w->stop = 1; pthread_join(w->th, NULL); }
// Is everything that passed well-formed TLS records?
static bool is_records(const std::string& s) {
	size_t i = 0;
	while (i + 5 <= s.size()) {
		unsigned char t = s[i];
		if (t < 20 || t > 23 || s[i + 1] != 3) return false;
		i += 5 + (((unsigned char)s[i + 3]) << 8) + (unsigned char)s[i + 4];
	}
	return true;
}
// Does any run of the stream's bytes occur in the wire? (every run of 16 contains an aligned 8)
static int64_t find_clear(const std::string& wire, uint32_t id, int64_t total) {
	if (total < 8 || wire.size() < 8) return -1;
	std::vector<std::pair<uint64_t, int64_t>> t;
	for (int64_t o = 0; o + 8 <= total; o += 8) {
		char b[8];
		net::fill(b, id, o, 8);
		uint64_t v;
		memcpy(&v, b, 8);
		t.push_back(std::make_pair(v, o));
	}
	std::sort(t.begin(), t.end());
	for (size_t i = 0; i + 8 <= wire.size(); i++) {
		uint64_t v;
		memcpy(&v, wire.data() + i, 8);
		auto it = std::lower_bound(t.begin(), t.end(), std::make_pair(v, (int64_t)-1));
		if (it != t.end() && it->first == v) return it->second;
	}
	return -1;
}
}
