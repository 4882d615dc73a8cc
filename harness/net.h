// Shared by the network harnesses: sessions, stream patterns, kernel behaviour injected.
#pragma once
#include "kx.h"
#include "kbuf.h"
#include "kgl_ssl.h"
#include <sys/un.h>
#include <netinet/tcp.h>
#include <signal.h>
#include <poll.h>

namespace net {
// byte at an offset of stream `id`
static inline unsigned char pat(uint32_t id, uint64_t off) {
	uint64_t z = (off >> 3) * 0x9E3779B97F4A7C15ull + id * 0xBF58476D1CE4E5B9ull;
	z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32;
	return (unsigned char)(z >> ((off & 7) * 7));
}
static inline void fill(char* b, uint32_t id, uint64_t off, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (char)pat(id, off + i); }
static inline ssize_t differs(const char* b, uint32_t id, uint64_t off, size_t n) {
	for (size_t i = 0; i < n; i++) if ((unsigned char)b[i] != pat(id, off + i)) return (ssize_t)i;
	return -1;
}
// Per-thread randomness of the injected kernel behaviour.
static __thread uint64_t xs;
static inline uint32_t xr() {
	if (!xs) xs = mon::hash(mon::seed, (uint64_t)pthread_self()) | 1;
	xs ^= xs << 13; xs ^= xs >> 7; xs ^= xs << 17;
	return (uint32_t)(xs >> 16);
}
static volatile int short_num = 0, again_num = 0;   // out of 100
// A transfer moves fewer bytes than it could, or would block although it could go on; the
// state then changes again at once, so a new edge is reported.
static bool xfer(int fd, int op, size_t total, size_t* limit, int* err) {
	uint32_t r = xr() % 100;
	if ((int)r < again_num) { *err = EAGAIN; mon::count("injected.would_block"); wrap::rearm(fd); return true; }
	if ((int)r < again_num + short_num && total > 1) {
		size_t m = (xr() & 3) ? 1 + xr() % 40 : 1 + xr() % total;
		if (m < total) { *limit = m; mon::count("injected.short"); wrap::rearm(fd); }
	}
	return false;
}
static void inject(int sh, int ag) { short_num = sh; again_num = ag; wrap::hooks.xfer = (sh || ag) ? xfer : NULL; }

// Small sending buffers make writers wait (tiny receiving buffers would stall in the kernel's
// own window probing).
static void small_buffers(int fd, Rng& r) {
	int v = 1 + (int)r.below(6000);
	setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v);
}
static std::string tmpdir() { return mon::arg("tmp", "/tmp"); }

// ---- a server whose connections are handed to sessions by the id they send first -------
typedef std::function<void(kconnection*, uint64_t)> Handler;
static kserver* srv[4];
static Handler on_conn;
static kev_result accept_cb(KOPAQUE data, void* arg, int got);
static int handle(void* arg, int) {
	kconnection* cn = (kconnection*)arg;
	on_conn(cn, 0);
	mon::progress();
	return 0;
}
KACCEPT_CALLBACK(accept_cb) {
	kconnection* cn = (kconnection*)arg;
	mon::count("accepted");
	if (kfiber_create(handle, cn, 0, 0, NULL) != 0) mon::harness_error("kfiber_create");
	return kev_ok;
}
static kserver* open_server(const char* ip, kgl_ssl_ctx* ctx = NULL) {
	kserver* s = kserver_init();
	if (!kserver_bind(s, ip, 0, ctx)) mon::harness_error("bind %s", ip);
	if (!kserver_open(s, 0, accept_cb)) mon::harness_error("open %s", ip);
	return s;
}
}
