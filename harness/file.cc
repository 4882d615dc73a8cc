// File I/O: asynchronous files against ordinary ones (C12), file-to-socket transfers (C11).
// WRAP: SSL_set_fd BIO_ctrl SSL_sendfile SSL_get_error
#include "net.h"
#include "tlsutil.h"
using namespace tls;
extern "C" int __wrap_SSL_set_fd(SSL* s, int fd) { int r = __real_SSL_set_fd(s, fd); blocks(s); return r; }
#include <linux/aio_abi.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <mutex>
using namespace net;

static std::string dir;
static int align_size() { return kgl_aio_align_size; }

// ---- what the kernel reports of asynchronous operations, edited on request ---------------
struct Edit { int mode; int64_t seen, made; };     // mode 0 none, 1 shorter result, 2 error
static SpinLock edit_lk;
static std::map<void*, Edit> edits;
static void edit_events(void* evs, int n) {
	struct io_event* e = (struct io_event*)evs;
	SpinGuard g(edit_lk);
	for (int i = 0; i < n; i++) {
		auto it = edits.find((void*)(uintptr_t)e[i].data);
		if (it == edits.end() || !it->second.mode) continue;
		Edit& d = it->second;
		d.seen = e[i].res;
		if (d.mode == 1 && (int64_t)e[i].res > 1) { e[i].res = 1 + (d.seen * 7919 + 13) % (d.seen - 1); mon::count("injected.short_result"); }
		else if (d.mode == 2) { e[i].res = (uint64_t)(int64_t)-EIO; mon::count("injected.io_error"); }
		d.made = (int64_t)e[i].res;
		d.mode = 0;
	}
}
static __thread int submit_fail;
static bool submit_fault(int* err) {
	if (submit_fail == 0) return false;
	*err = submit_fail == 1 ? EAGAIN : EINVAL;
	submit_fail = 0;
	mon::count("injected.submit_refused");
	return true;
}

// ---- C12: the ordinary file next to the asynchronous one --------------------------------
static const fileModel MODES[] = { fileRead, fileAppend, fileModify, fileWrite, fileReadWrite, fileWriteRead };
static const int FLAGS[] = { O_RDONLY, O_WRONLY | O_APPEND | O_CREAT, O_WRONLY | O_CREAT, O_WRONLY | O_CREAT | O_TRUNC, O_RDWR, O_RDWR | O_CREAT | O_TRUNC };
static const char* MODE_NAME[] = { "read", "append", "modify", "write", "read-write", "write-read" };
static volatile int in_flight;

struct FileCase {
	std::string path, shadow;
	int64_t lo = 0, span = 1 << 20;     // the range of offsets this programme uses
	bool shared = false;                // others use other ranges of the same file
	Rng r;
	uint64_t sig = 0;
	int ops;
	// the open pair
	kfiber_file* fp = NULL;
	int sfd = -1, model = 0;
	int64_t pos = 0;
	bool direct = false;
	kselector* home = NULL;
};
#define FCHECK(c, key, fmt, ...) MON_CHECK(c, "file." key, "%s%s at %lld: " fmt, MODE_NAME[f->model], f->direct ? ", direct" : "", (long long)f->pos, ##__VA_ARGS__)

static void open_pair(FileCase* f) {
	Rng& r = f->r;
	f->model = f->shared ? (r.chance(1, 2) ? 4 : r.chance(1, 2) ? 2 : 0) : (int)r.below(6);
	if (!f->shared && r.chance(1, 2)) f->model = 4;
	int flags = 0;
	// (buffered writes beside direct ones of the same file: the kernel may report their collision to whoever waits for the disk)
	if (!f->shared && r.chance(1, 6)) flags |= KFILE_DSYNC;
	if (r.chance(1, 6)) flags |= KFILE_NOFOLLOW;
	if (r.chance(1, 6)) flags |= KFILE_NOATIME;
	f->direct = false;
	f->pos = f->lo;
	f->sfd = open(f->shadow.c_str(), FLAGS[f->model] | O_CLOEXEC, 0644);
	int err = errno;
	if (r.chance(1, 6)) {
		FILE_HANDLE h = kfopen(f->path.c_str(), MODES[f->model], flags);
		FCHECK(kflike(h) == (f->sfd >= 0), "open", "kfopen gave %d, an ordinary open %d (errno %d)", h, f->sfd, err);
		f->fp = kflike(h) ? kfiber_file_bind(h) : NULL;
		mon::count("file.bound");
	} else f->fp = kfiber_file_open(f->path.c_str(), MODES[f->model], flags);
	FCHECK((f->fp != NULL) == (f->sfd >= 0), "open", "opening gave %s, an ordinary open %d (errno %d)", f->fp ? "a file" : "nothing", f->sfd, err);
	if (!f->fp) { if (f->sfd >= 0) close(f->sfd); f->sfd = -1; return; }
	FCHECK(kasync_file_get_selector(f->fp) == f->home, "loop", "the file belongs to another loop");
	FCHECK(kfiber_file_tell(f->fp) == 0, "open", "a fresh file is at %lld", (long long)kfiber_file_tell(f->fp));
	if (f->lo) kfiber_file_seek(f->fp, seekBegin, f->lo);
	int fl = fcntl(kasync_file_get_handle(f->fp), F_GETFL);
	int want = FLAGS[f->model] & (O_ACCMODE | O_APPEND);
	FCHECK((fl & (O_ACCMODE | O_APPEND)) == want && !!(fl & O_DSYNC) == !!(flags & KFILE_DSYNC), "open_flags", "flags %x instead of %x", fl, want);
	FCHECK(fcntl(kasync_file_get_handle(f->fp), F_GETFD) & FD_CLOEXEC, "inherited", "a programme started now gets the file");
	mon::count("file.opened");
}
static void close_pair(FileCase* f) {
	if (!f->fp) return;
	{ SpinGuard g(edit_lk); edits.erase(f->fp); }
	kfiber_file_close(f->fp);
	close(f->sfd);
	f->fp = NULL;
	f->sfd = -1;
}
static bool can_read(FileCase* f) { return f->model == 0 || f->model >= 4; }
static bool can_write(FileCase* f) { return f->model >= 1; }
// One read of `n` bytes; the ordinary file says what must come back.
static void one_read(FileCase* f, int n, int how) {
	Rng& r = f->r;
	int cap = n;
	int al = align_size();
	if (f->direct) cap = std::max(al, (n + al - 1) / al * al);
	int guard = 64;
	char* mem = f->direct ? (char*)aio_alloc_buffer(cap + al) : (char*)malloc(cap + guard);
	memset(mem, 0xEE, f->direct ? cap + al : cap + guard);
	char* want = (char*)malloc(n + 1);
	ssize_t w = pread(f->sfd, want, n, f->pos);
	int werr = errno;
	Edit ed = { 0, 0, 0 };
	bool refuse = false;
	if (how == 1 && r.chance(1, 12)) ed.mode = 1 + r.below(2);
	else if (how == 1 && r.chance(1, 20)) { refuse = true; submit_fail = 1 + r.below(2); }
	if (ed.mode) { SpinGuard g(edit_lk); edits[f->fp] = ed; }
	mon_fetch_add32(&in_flight, 1);
	int got, left = n;
	bool full = false;
	if (how == 2) { full = true; bool ok = kfiber_file_read_full(f->fp, mem, &left); got = n - left; FCHECK(ok == (left == 0), "full_result", "read_full of %d left %d and returned %d", n, left, ok); }
	else got = kfiber_file_read(f->fp, mem, n);
	mon_fetch_add32(&in_flight, -1);
	submit_fail = 0;
	if (how == 1) { SpinGuard g(edit_lk); if (edits.count(f->fp)) { ed = edits[f->fp]; edits.erase(f->fp); } }
	int64_t avail = w;
	if (refuse) FCHECK(got < 0, "refused", "a read the kernel refused returned %d", got);
	else if (ed.made || ed.seen) {
		if (ed.made < 0) FCHECK(got < 0, "io_error", "a read that failed in the kernel returned %d", got);
		else FCHECK(got <= ed.made, "short_result", "a read of which the kernel did %lld returned %d", (long long)ed.made, got);
		if (!f->direct && ed.made >= 0) FCHECK(got == ed.made, "short_result", "a read of which the kernel did %lld returned %d", (long long)ed.made, got);
	} else if (w < 0) FCHECK(full ? got == 0 : got < 0, "error", "a read of %d returned %d, an ordinary one fails with errno %d", n, got, werr);
	else if (f->direct) {
		// a direct read may stop at the end of its last block
		FCHECK(got >= 0 && got <= w && (got > 0 || w == 0), "read_result", "a direct read of %d returned %d, an ordinary one %zd", n, got, w);
		if (got < w) mon::count("file.direct_short");
	} else FCHECK(got == w, "read_result", "a read of %d returned %d, an ordinary one %zd", n, got, w);
	if (got > 0) {
		const char* data = f->direct ? kfiber_file_adjust(f->fp, mem) : mem;
		FCHECK(got <= n && got <= avail, "too_much", "a read of %d returned %d of %lld there are", n, got, (long long)avail);
		int m = std::min<int64_t>(got, avail);
		int d = 0;
		while (d < m && data[d] == want[d]) d++;
		FCHECK(d == m, "content", "byte %d of a read of %d (result %d) is %02x instead of %02x", d, n, got, (unsigned char)data[d], (unsigned char)want[d]);
		f->pos += got;
		mon::count(f->direct ? "file.direct_reads" : "file.reads");
		mon::count("file.read_bytes", got);
	} else if (w == 0) mon::count("file.end_of_file");
	int b = f->direct ? cap : (got > 0 && !ed.seen ? got : n), e = f->direct ? cap + al : cap + guard;
	for (int i = b; i < e; i++) if ((unsigned char)mem[i] != 0xEE) { FCHECK(false, "beyond", "a read of %d (result %d) changed byte %d behind it", n, got, i); break; }
	f->sig = mon::hash(f->sig, got);
	if (f->direct) aio_free_buffer(mem); else free(mem);
	free(want);
}
static void one_write(FileCase* f, int n, int how) {
	Rng& r = f->r;
	char* mem = f->direct ? (char*)aio_alloc_buffer(std::max(n, 1)) : (char*)malloc(n + 1);
	for (int i = 0; i < n; i++) mem[i] = (char)r.next();
	Edit ed = { 0, 0, 0 };
	bool refuse = false;
	if (how == 1 && r.chance(1, 12)) ed.mode = 1 + r.below(2);
	else if (how == 1 && r.chance(1, 20)) { refuse = true; submit_fail = 1 + r.below(2); }
	if (ed.mode) { SpinGuard g(edit_lk); edits[f->fp] = ed; }
	mon_fetch_add32(&in_flight, 1);
	int got, left = n;
	bool full = false;
	if (how == 2) { full = true; bool ok = kfiber_file_write_full(f->fp, mem, &left); got = n - left; FCHECK(ok == (left == 0), "full_result", "write_full of %d left %d and returned %d", n, left, ok); }
	else got = kfiber_file_write(f->fp, mem, n);
	mon_fetch_add32(&in_flight, -1);
	submit_fail = 0;
	if (how == 1) { SpinGuard g(edit_lk); if (edits.count(f->fp)) { ed = edits[f->fp]; edits.erase(f->fp); } }
	if (refuse) FCHECK(got < 0, "refused", "a write the kernel refused returned %d", got);
	else {
		ssize_t w = pwrite(f->sfd, mem, n, f->pos);
		int werr = errno;
		if (ed.made || ed.seen) {
			if (ed.made < 0) FCHECK(got < 0, "io_error", "a write that failed in the kernel returned %d", got);
			else FCHECK(got == ed.made, "short_result", "a write of which the kernel did %lld returned %d", (long long)ed.made, got);
		} else if (w < 0) FCHECK(full ? got == 0 : got < 0, "error", "a write of %d returned %d, an ordinary one fails with errno %d", n, got, werr);
		else FCHECK(got == w, "write_result", "a write of %d returned %d, an ordinary one %zd", n, got, w);
		if (got > 0) { mon::count(f->direct ? "file.direct_writes" : f->model == 1 ? "file.appends" : "file.writes"); mon::count("file.written_bytes", got); }
		if (w < 0) mon::count("file.failed_writes");
	}
	if (got > 0) f->pos += got;
	f->sig = mon::hash(f->sig, got + 7);
	if (f->direct) aio_free_buffer(mem); else free(mem);
}
static int64_t some_offset(FileCase* f, int64_t size) {
	Rng& r = f->r;
	if (!f->shared) size = std::max<int64_t>(0, size - f->lo);
	if (!f->shared && f->lo && r.chance(1, 8)) return r.below(20000);
	int64_t top = f->shared ? f->span : size + 3000;
	switch (r.below(5)) {
	case 0: return f->lo + r.below((uint32_t)std::max<int64_t>(1, top));
	case 1: return f->lo + r.below((uint32_t)std::max<int64_t>(1, top)) / align_size() * align_size();
	case 2: return f->shared ? f->lo : f->lo + std::max<int64_t>(0, size - (int64_t)r.below(1500));
	case 3: return f->lo + r.below((uint32_t)std::max<int64_t>(1, std::min<int64_t>(top, 2000)));
	default: return f->lo + (f->shared ? (int64_t)r.below((uint32_t)f->span) : (int64_t)r.below((uint32_t)(size / 2 + 1)));
	}
}
static int64_t room(FileCase* f, int n) { return f->shared ? std::max<int64_t>(0, std::min<int64_t>(n, f->lo + f->span - f->pos)) : n; }
static void seek_to(FileCase* f, int64_t to) {
	int rc;
	if (f->r.chance(1, 2) || to < 0 || to > 1ll << 40 || f->pos < 0 || f->pos > 1ll << 40) rc = kfiber_file_seek(f->fp, seekBegin, to);
	else rc = kfiber_file_seek(f->fp, seekCur, to - f->pos);
	FCHECK(rc == 0, "seek", "seeking to %lld failed", (long long)to);
	f->pos = to;
}
static void run_file(FileCase* f) {
	Rng& r = f->r;
	f->home = kgl_get_tls_selector();
	int tries = 0;
	for (int i = 0; i < f->ops && !mon::violated(); i++) {
		if (!f->fp) { open_pair(f); if (!f->fp) { if (++tries > 20) f->shared = false; continue; } }
		struct stat st;
		fstat(f->sfd, &st);
		int64_t size = st.st_size;
		int n = r.chance(1, 20) ? 0 : r.chance(1, 3) ? 1 + r.below(40) : r.chance(1, 3) ? 1 + r.below(20000) : 1 + r.below(2500);
		// (what was written by an edit that failed need not stay in step in append mode: same bytes both sides)
		switch (r.below(16)) {
		case 0: case 1: case 2: case 3:
			n = (int)room(f, n);
			if (can_read(f) || !f->direct) one_read(f, n, (int)r.below(2));
			break;
		case 4: case 5: case 6: case 7: {
			n = (int)room(f, n);
			if (f->direct) {
				int64_t to = some_offset(f, size) / align_size() * align_size();
				if (to < f->lo) to = (f->lo + align_size() - 1) / align_size() * align_size();
				seek_to(f, to);
				n = (int)room(f, n) / align_size() * align_size();
				if (n == 0) break;
			}
			if (can_write(f) || !f->direct) one_write(f, n, (int)r.below(2));
			break;
		}
		case 8:
			if (f->direct) break;
			n = (int)room(f, n);
			if (r.chance(1, 2)) one_read(f, n, 2); else one_write(f, n, 2);
			break;
		case 9: case 10: case 11:
			seek_to(f, some_offset(f, size));
			break;
		case 12: {
			if (f->shared) { FCHECK(kfiber_file_tell(f->fp) == f->pos, "tell", "position %lld", (long long)kfiber_file_tell(f->fp)); break; }
			int64_t s = kfiber_file_size(f->fp);
			FCHECK(s == size, "size", "size %lld, an ordinary file has %lld", (long long)s, (long long)size);
			if (f->model != 1) FCHECK(kfiber_file_tell(f->fp) == f->pos, "tell", "position %lld", (long long)kfiber_file_tell(f->fp));
			mon::count("file.sizes");
			break;
		}
		case 13:
			if (r.chance(1, 2)) { close_pair(f); break; }
			if (f->model == 0 || f->model == 4 || f->model == 5) {
				bool on = !f->direct;
				int fl = fcntl(f->sfd, F_GETFL);
				bool can = fcntl(f->sfd, F_SETFL, fl | O_DIRECT) == 0;
				fcntl(f->sfd, F_SETFL, fl);
				bool ok = kasync_file_direct(f->fp, on);
				FCHECK(ok == (can || !on), "direct", "switching direct I/O %s gave %d", on ? "on" : "off", ok);
				if (ok) f->direct = on;
			}
			break;
		case 14: {
			// positions no file has
			if (f->shared) break;
			if (f->direct) { kasync_file_direct(f->fp, false); f->direct = false; }
			int64_t save = f->pos;
			static const int64_t odd[] = { -1, -4096, INT64_MIN + 5, INT64_MAX - 3, (int64_t)1 << 62, (int64_t)1 << 45 };
			seek_to(f, odd[r.below(6)]);
			int m = 1 + (int)r.below(300);
			if (r.chance(1, 2)) one_read(f, m, 0);
			// (the largest offsets the file system takes make files of that size)
			else if (f->pos != (int64_t)1 << 45 || f->model == 0) one_write(f, m, 0);
			kfiber_file_seek(f->fp, seekBegin, save);
			f->pos = save;
			mon::count("file.odd_offsets");
			break;
		}
		case 15: {
			// from a fiber of another loop
			if (kx::n_loops < 2 || f->direct) break;
			kselector* other;
			do other = get_selector_by_index(r.below(kx::n_loops)); while (other == f->home);
			n = (int)room(f, n);
			bool wr = r.chance(1, 2);
			char* mem = (char*)malloc(n + 1), *want = (char*)malloc(n + 1);
			for (int k = 0; k < n; k++) mem[k] = (char)r.next();
			int res = -99, left = n;
			volatile int done = 0;
			kfiber_file* fp = f->fp;
			kx::spawn(other, [&](int) {
				if (wr) res = kfiber_file_safe_write_full(fp, mem, &left); else res = kfiber_file_safe_read(fp, mem, n);
				return 0;
			}, &done);
			while (!mon_load32(&done)) kfiber_msleep(1);
			kx::edge_acquire(&done);
			if (wr) {
				ssize_t w = pwrite(f->sfd, mem, n, f->pos);
				FCHECK(left >= 0 && left <= n && res == (left == 0), "full_result", "safe write_full of %d left %d and returned %d", n, left, res);
				FCHECK(n - left == (w < 0 ? 0 : w), "write_result", "a safe write of %d left %d, an ordinary one wrote %zd", n, left, w);
				f->pos += n - left;
			} else {
				ssize_t w = pread(f->sfd, want, n, f->pos);
				FCHECK(w < 0 ? res < 0 : res == w, "read_result", "a safe read of %d returned %d, an ordinary one %zd", n, res, w);
				if (res > 0) { FCHECK(!memcmp(mem, want, std::min<ssize_t>(res, w)), "content", "a safe read gave other bytes"); f->pos += res; }
			}
			free(mem);
			free(want);
			mon::count("file.safe");
			break;
		}
		}
		if (!f->fp) continue;
		if (f->model != 1) FCHECK(kfiber_file_tell(f->fp) == f->pos, "tell", "the position is %lld after operation %d", (long long)kfiber_file_tell(f->fp), i);
		if (r.chance(1, 25)) kx::yield_fiber();
	}
	close_pair(f);
	mon::progress();
}
static std::string slurp(const std::string& p) {
	std::string s;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "<none>";
	std::vector<char> buf(65536);
	char* b = buf.data();
	for (;;) {
		ssize_t k = ::read(fd, b, buf.size());
		if (k <= 0) break;
		s.append(b, k);
	}
	close(fd);
	return s;
}
static void compare_files(const std::string& a, const std::string& b, const char* key) {
	std::string x = slurp(a), y = slurp(b);
	size_t i = 0;
	while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
	MON_CHECK(x == y, key, "the files differ at byte %zu (%zu and %zu bytes)", i, x.size(), y.size());
}
// the pages of a file that are not all zero, of files that are mostly holes
static std::string far_slurp(const std::string& p) {
	std::string s;
	int fd = open(p.c_str(), O_RDONLY);
	if (fd < 0) return "<none>";
	struct stat st;
	fstat(fd, &st);
	s = std::to_string((long long)st.st_size);
	std::vector<char> b(4096);
	for (off_t at = 0;;) {
		off_t d = lseek(fd, at, SEEK_DATA), h;
		if (d < 0 || (h = lseek(fd, d, SEEK_HOLE)) < 0) break;
		if (h - d > 1 << 28) mon::harness_error("the file system has no holes");
		for (at = d / 4096 * 4096; at < h; at += 4096) {
			ssize_t k = pread(fd, b.data(), b.size(), at);
			if (k <= 0) break;
			bool zero = true;
			for (ssize_t i = 0; i < k && zero; i++) zero = b[i] == 0;
			if (!zero) { s += " " + std::to_string((long long)at) + ":"; s.append(b.data(), k); }
		}
		at = h;
	}
	close(fd);
	return s;
}
static void compare_far(const std::string& a, const std::string& b) {
	MON_CHECK(far_slurp(a) == far_slurp(b), "file.contents", "files of several GiB differ");
}
static std::string put_file(const std::string& p, size_t n, uint64_t seed, int64_t at = 0) {
	std::string s(n, 0);
	Rng r(seed);
	for (size_t i = 0; i < n; i++) s[i] = (char)r.next();
	FILE* f = fopen(p.c_str(), "w");
	if (!f || fseeko(f, at, SEEK_SET) || fwrite(s.data(), 1, n, f) != n) mon::harness_error("cannot write %s", p.c_str());
	fclose(f);
	return s;
}
// synchronous file functions
static void sync_files(Rng& r, int id) {
	std::string p = dir + "/s" + std::to_string(id), q = p + "r", l = p + "l";
	size_t n = r.below(5000);
	put_file(p, n, id);
	put_file(q, n, id);
	if (symlink(p.c_str(), l.c_str())) mon::harness_error("symlink");
	FILE_HANDLE h = kfopen(l.c_str(), fileReadWrite, KFILE_NOFOLLOW);
	MON_CHECK(!kflike(h), "file.nofollow", "a link was followed");
	if (kflike(h)) kfclose(h);
	h = kfopen((dir + "/missing").c_str(), r.chance(1, 2) ? fileRead : fileReadWrite, 0);
	MON_CHECK(!kflike(h), "file.missing", "a missing file was opened");
	MON_CHECK(kfiber_file_open((dir + "/missing").c_str(), fileRead, 0) == NULL, "file.missing", "a missing file was opened");
	MON_CHECK(kfiber_file_open(l.c_str(), fileRead, KFILE_NOFOLLOW) == NULL, "file.nofollow", "a link was followed");
	h = kfopen(l.c_str(), fileReadWrite, 0);
	int fd = open(q.c_str(), O_RDWR);
	MON_CHECK(kflike(h), "file.open", "opening through a link failed");
	if (!kflike(h)) return;
	for (int i = 0; i < 30; i++) {
		int len = 1 + r.below(900);
		std::string a(len, 0), b(len, 0);
		static const int W[] = { SEEK_SET, SEEK_END, SEEK_CUR };
		static const seekPosion K[] = { seekBegin, seekEnd, seekCur };
		int w = r.below(3);
		int64_t off = w == 0 ? r.below(6000) : (int64_t)r.below(2000) - 1200;
		switch (r.below(5)) {
		case 0: { bool x = kfseek(h, off, K[w]); bool y = lseek(fd, off, W[w]) >= 0; MON_CHECK(x == y, "file.kfseek", "seek %d %lld gave %d, an ordinary one %d", w, (long long)off, x, y); break; }
		case 1: { int x = kfread(h, &a[0], len); int y = (int)::read(fd, &b[0], len); MON_CHECK(x == y && a == b, "file.kfread", "read gave %d, an ordinary one %d", x, y); break; }
		case 2: { for (auto& c : a) c = (char)r.next(); int x = kfwrite(h, a.data(), len); int y = (int)::write(fd, a.data(), len); MON_CHECK(x == y, "file.kfwrite", "write gave %d, an ordinary one %d", x, y); break; }
		case 3: {
			int64_t at = lseek(fd, 0, SEEK_CUR);
			struct stat st;
			fstat(fd, &st);
			bool x = kfread_all(h, &a[0], len);
			ssize_t y = pread(fd, &b[0], len, at);
			if (y > 0) lseek(fd, y, SEEK_CUR);
			MON_CHECK(x == (y == len) && a == b, "file.kfread_all", "read_all of %d gave %d, an ordinary read %zd", len, x, y);
			break;
		}
		case 4: {
			struct stat st;
			fstat(fd, &st);
			MON_CHECK(kfsize(h) == st.st_size, "file.kfsize", "size %lld of %lld", (long long)kfsize(h), (long long)st.st_size);
			time_t t = 1000000000 + r.below(500000000);
			MON_CHECK(kfutime(h, t) && kftime(h) == t && kfile_last_modified(p.c_str()) == t, "file.kfutime", "the time set is not the time read");
			MON_CHECK(kfile_last_modified((dir + "/missing").c_str()) == 0, "file.kfile_last_modified", "a missing file has a time");
			break;
		}
		}
	}
	kfclose(h);
	close(fd);
	compare_files(p, q, "file.sync_contents");
	unlink(p.c_str()); unlink(q.c_str()); unlink(l.c_str());
	mon::count("file.sync_cases");
}
static void mode_file() {
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	wrap::hooks.io_events = edit_events;
	wrap::hooks.io_getevents_max = [](int n) -> int {
		static __thread uint64_t x;
		x = mon::hash(x ^ (uint64_t)pthread_self(), mon::seed + 77);
		if (x % 2) return n;
		mon::count("injected.fewer_events");
		return 1 + (int)(x / 2 % n);
	};
	wrap::hooks.io_submit_fault = submit_fault;
	Rng R(mon::seed * 131 + 5);
	int fds = -1;
	for (int c = 0; c < mon::cases && !mon::violated(); ) {
		int kind = R.below(10);
		int n = kind == 0 ? 8 : kind < 3 ? 1 + R.below(40) : 8;
		mon::set_case("files %d..%d kind %d", c, c + n - 1, kind);
		std::vector<FileCase*> fs;
		volatile int done = 0;
		std::string common = dir + "/c" + std::to_string(c);
		for (int i = 0; i < n; i++) {
			FileCase* f = new FileCase;
			f->r = Rng(mon::hash(mon::seed, c + i));
			f->ops = 60;
			if (kind < 3 && kind > 0) {
				f->shared = true;
				f->path = common; f->shadow = common + "s";
				f->span = 8192; f->lo = (int64_t)i * f->span;
				f->ops = 40;
			} else {
				f->path = dir + "/f" + std::to_string(c + i); f->shadow = f->path + "s";
				size_t sz = f->r.chance(1, 5) ? 0 : f->r.below(12000);
				if (f->r.chance(1, 6)) {       // around the places where 31, 32 or more bits end
					static const int64_t far[] = { 1ll << 31, 1ll << 32, 5ll << 30, 1ll << 36 };
					f->lo = far[f->r.below(4)] - (int64_t)f->r.below(4) * 4096;
					mon::count("file.far");
				}
				if (!f->r.chance(1, 8)) { put_file(f->path, sz, c + i, f->lo); put_file(f->shadow, sz, c + i, f->lo); }
			}
			fs.push_back(f);
		}
		if (fs[0]->shared) { put_file(common, n * 8192 + 50, c); put_file(common + "s", n * 8192 + 50, c); mon::count("file.shared_cases"); }
		for (FileCase* f : fs) kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [f](int) { run_file(f); return 0; }, &done);
		kx::wait_done(&done, n);
		if (fs[0]->shared) { compare_files(common, common + "s", "file.contents"); unlink(common.c_str()); unlink((common + "s").c_str()); }
		for (FileCase* f : fs) {
			if (!f->shared) { if (f->lo) compare_far(f->path, f->shadow); else compare_files(f->path, f->shadow, "file.contents"); unlink(f->path.c_str()); unlink(f->shadow.c_str()); }
			mon::cover(f->sig);
			mon::eval();
			delete f;
		}
		fs.clear();
		{
			volatile int d2 = 0;
			kx::spawn(get_selector_by_index(0), [&](int) { sync_files(R, c); return 0; }, &d2);
			kx::wait_done(&d2, 1);
		}
		if (c && R.chance(1, 4)) {
			// more operations than the kernel takes at once: each one works or is refused whole
			int m = 200 + R.below(500);
			std::string p = dir + "/burst";
			put_file(p, m * 16, 77);
			std::string all = slurp(p);
			volatile int d2 = 0;
			std::atomic<int> refused{0};
			kx::spawn(get_selector_by_index(0), [&](int) { for (int i = 0; i < m; i++) kx::spawn_local([&, i](int) {
				kfiber_file* fp = kfiber_file_open(p.c_str(), fileReadWrite, 0);
				if (!fp) mon::harness_error("open burst: %d", errno);
				kfiber_file_seek(fp, seekBegin, i * 16);
				char b[17] = "zzzzzzzzzzzzzzzz";
				int got = kfiber_file_read(fp, b, 16);
				if (got < 0) { refused++; MON_CHECK(kfiber_file_tell(fp) == i * 16 && !strcmp(b, "zzzzzzzzzzzzzzzz"), "file.refused", "a refused read moved the position or changed the buffer"); }
				else MON_CHECK(got == 16 && !memcmp(b, &all[i * 16], 16), "file.burst_content", "one of many reads gave %d or wrong bytes", got);
				kfiber_file_close(fp);
				return 0;
			}, &d2); return 0; }, &d2);
			kx::wait_done(&d2, m + 1);
			mon::count("file.bursts");
			mon::count("file.burst_refused", refused.load());
			MON_CHECK(refused.load() < m, "file.burst", "all of %d simultaneous reads were refused", m);
			unlink(p.c_str());
		}
		c += n;
		int now = wrap::open_fds();
		if (fds >= 0) MON_CHECK(now == fds, "file.fds", "%d descriptors open instead of %d: %s", now, fds, wrap::fd_list().c_str());
		fds = now;
		mon::progress();
	}
}
// ---- C11: transfers from files to sockets ------------------------------------------------
// Without kernel TLS here, SSL_sendfile is stood in for: it reads the range and writes it through
// the session, keeping an unfinished piece as the kernel would.
extern "C" {
long __real_BIO_ctrl(BIO* b, int cmd, long l, void* p);
long __wrap_BIO_ctrl(BIO* b, int cmd, long l, void* p) {
	if (cmd == BIO_CTRL_GET_KTLS_SEND) return 1;
	return __real_BIO_ctrl(b, cmd, l, p);
}
static SpinLock pend_lk;
struct Pend { std::string data; int fd; off_t off; };
static std::map<SSL*, Pend> pend;
static __thread SSL* fake_want;
int __real_SSL_get_error(const SSL* s, int r);
int __wrap_SSL_get_error(const SSL* s, int r) {
	if (fake_want == s) { fake_want = NULL; return ERR_peek_error() ? SSL_ERROR_SSL : SSL_ERROR_WANT_WRITE; }
	return __real_SSL_get_error(s, r);
}
ossl_ssize_t __wrap_SSL_sendfile(SSL* s, int fd, off_t off, size_t n, int flags) {
	fake_want = NULL;
	size_t limit = n;
	int err = 0;
	Pend* p = NULL;
	{ SpinGuard g(pend_lk); if (pend.count(s)) p = &pend[s]; }
	if (p) MON_CHECK(p->fd == fd && p->off == off && n >= p->data.size(), "sendfile.retry", "an unfinished encrypted transfer of %zu bytes at %lld was followed by one of %zu at %lld", p->data.size(), (long long)p->off, n, (long long)off);
	else {
		if (wrap::hooks.xfer && n && wrap::hooks.xfer(SSL_get_fd(s), wrap::OP_SENDFILE, n, &limit, &err)) { fake_want = s; return -1; }
		std::string d(std::min<size_t>(limit, 16384), 0);
		ssize_t k = pread(fd, &d[0], d.size(), off);
		if (k <= 0) { if (k < 0) ERR_raise(ERR_LIB_SSL, ERR_R_INTERNAL_ERROR); return k; }
		d.resize(k);
		SpinGuard g(pend_lk);
		p = &pend[s];          // (stays where it is: the session may be half-way through it)
		p->data = d;
		p->fd = fd; p->off = off;
	}
	int r = SSL_write(s, p->data.data(), (int)p->data.size());
	if (r <= 0 && SSL_get_error(s, r) == SSL_ERROR_WANT_WRITE) { mon::count("sendfile.tls_blocked"); return r; }
	SpinGuard g(pend_lk);
	pend.erase(s);
	return r;
}
}
struct XCase {
	int id, tls;
	Rng r{1};
	int end;                 // 0 the peer reads all; 1 it stops and closes early; 2 it stops reading, the sender shuts down; 3 it stops reading and resets
	std::string want;        // what the sender's results say was sent
	std::string maybe;       // given to an operation that failed
	std::string got;
	int64_t from_peer, peer_sent = 0, back = 0;
	int64_t stop_at;
	volatile bool failed = false, stopped = false, over = false, hung_up = false;
	volatile int done = 0;
	kconnection* cn = NULL;
	int ops;
	uint64_t sig = 0;
};
static SpinLock x_lk;
static std::map<uint64_t, XCase*> xtab;
static std::vector<XCase*> xlive;
static Cert xcert;
static SSL_CTX *xsctx[2], *xcctx;
static const char* XV[] = { "TLSv1.2", "TLSv1.3" };
static std::vector<std::string> xfile, xpath;
static std::vector<int64_t> xbase;              // where the bytes begin, after a hole
#define XCHECK(c, key, fmt, ...) MON_CHECK(c, "sendfile." key, "%s, file of %zu at %lld: " fmt, x->tls ? XV[x->tls - 1] : "plain", data.size(), (long long)pos, ##__VA_ARGS__)

struct CbSend { kfiber_file* fp; int got, calls; volatile int fin; kgl_iovec buf; kselectable* st; };
static kev_result cb_send(KOPAQUE data, void* arg, int got) {
	CbSend* c = (CbSend*)arg;
	c->got = got;
	c->calls++;
	c->fin = 1;
	return kev_ok;
}
static void x_sender(XCase* x, kconnection* cn) {
	Rng& r = x->r;
	int which = r.below((uint32_t)xfile.size());
	kfiber_file* fp = NULL;
	int64_t pos = 0;
	auto fail = [&](int64_t) { x->failed = true; };
	for (int i = 0; i < x->ops && !x->failed && !mon::violated(); i++) {
		if (!fp || r.chance(1, 10)) {
			if (fp) kfiber_file_close(fp);
			which = r.below((uint32_t)xfile.size());
			fp = kfiber_file_open(xpath[which].c_str(), fileRead, 0);
			if (!fp) mon::harness_error("open %s", xpath[which].c_str());
			pos = 0;
			if (xbase[which]) { kfiber_file_seek(fp, seekBegin, xbase[which]); mon::count("sendfile.far"); }
		}
		const std::string& data = xfile[which];
		int64_t size = data.size();
		if (r.chance(1, 2)) {
			pos = r.chance(1, 8) ? size + r.below(500) : r.chance(1, 6) ? std::max<int64_t>(0, size - (int64_t)r.below(300)) : (int64_t)r.below((uint32_t)size + 1);
			kfiber_file_seek(fp, seekBegin, xbase[which] + pos);
		}
		int64_t left = std::max<int64_t>(0, size - pos);
		// (what failed on another connection of this thread may have left its trace)
		if (x->tls && r.chance(1, 6)) { ERR_raise(ERR_LIB_SSL, SSL_R_PROTOCOL_IS_SHUTDOWN); mon::count("sendfile.old_errors"); }
		int n = r.chance(1, 4) ? 1 + r.below(60) : r.chance(1, 4) ? 1 + r.below(200000) : 1 + r.below(6000);
		int64_t can = std::min<int64_t>(n, left);
		switch (r.below(10)) {
		default: {
			int got = kfiber_sendfile(cn, fp, n);
			mon::count("sendfile.calls");
			if (got < 0) { XCHECK(x->end != 0, "error", "a transfer of %d failed (%d, errno %d) although the peer reads", n, got, errno); fail(0); }
			else {
				XCHECK(got <= can && (got > 0 || can == 0), "result", "a transfer of %d returned %d", n, got);
				x->want.append(data, std::min(pos, size), std::min<int64_t>(got, left));
				pos += got;
				if (got == 0) mon::count("sendfile.end_of_file");
				if (got < can) mon::count("sendfile.partial");
			}
			break;
		}
		case 0: case 1: case 2: {
			int len = n;
			bool ok = kfiber_sendfile_full(cn, fp, &len);
			mon::count("sendfile.full");
			XCHECK(ok == (len == 0) && len >= 0 && len <= n, "full_result", "a full transfer of %d left %d and returned %d", n, len, ok);
			int64_t moved = n - len;
			XCHECK(moved <= can, "full_result", "a full transfer of %d moved %lld", n, (long long)moved);
			if (moved < can) { XCHECK(x->end != 0, "error", "a full transfer of %d stopped after %lld (errno %d) although the peer reads", n, (long long)moved, errno); fail(0); }
			x->want.append(data, std::min(pos, size), std::min<int64_t>(moved, left));
			pos += moved;
			break;
		}
		case 3: {
			// a header between the ranges
			int m = 1 + r.below(800), len = m;
			std::string h(m, 0);
			for (auto& c : h) c = (char)r.next();
			bool ok = kfiber_net_write_full(cn, &h[0], &len);
			if (!ok) { XCHECK(x->end != 0, "error", "a write failed (errno %d) although the peer reads", errno); fail(0); x->want.append(h, 0, m - len); x->maybe = h.substr(m - len); }
			else x->want += h;
			mon::count("sendfile.headers");
			break;
		}
		case 4: {
			// the file is read as well, at the same position
			int m = 1 + r.below(900);
			std::string b(m, 0);
			int got = kfiber_file_read(fp, &b[0], m);
			XCHECK(got == std::min<int64_t>(m, left) && (got <= 0 || !data.compare(pos, got, b, 0, got)), "read_between", "a read of %d between transfers gave %d or other bytes", m, got);
			if (got > 0) pos += got;
			break;
		}
		case 5: case 6: {
			// the callback interface, from the loop's main fiber or from here
			CbSend* c = new CbSend{ fp, -99, 0, 0 };
			c->buf.iov_base = (char*)fp; c->buf.iov_len = n;
			c->st = &cn->st;
			kselector* sel = cn->st.base.selector;
			if (r.chance(1, 2)) kx::post(sel, [c] { selectable_sendfile(c->st, cb_send, &c->buf, c); });
			else selectable_sendfile(c->st, cb_send, &c->buf, c);
			while (!c->fin) kfiber_msleep(1);
			mon::count("sendfile.callbacks");
			XCHECK(c->calls == 1, "calls", "a transfer called back %d times", c->calls);
			int got = c->got;
			if (got < 0) { XCHECK(x->end != 0, "error", "a callback transfer of %d failed (%d) although the peer reads", n, got); fail(0); }
			else {
				XCHECK(got <= can && (got > 0 || can == 0), "result", "a callback transfer of %d returned %d", n, got);
				XCHECK(kfiber_file_tell(fp) == xbase[which] + pos, "position", "the position moved to %lld under a caller's own callback", (long long)kfiber_file_tell(fp));
				x->want.append(data, std::min(pos, size), std::min<int64_t>(got, left));
				pos += got;
				kfiber_file_seek(fp, seekCur, got);
			}
			delete c;
			break;
		}
		}
		XCHECK(kfiber_file_tell(fp) == xbase[which] + pos, "position", "the position is %lld", (long long)kfiber_file_tell(fp));
		x->sig = mon::hash(x->sig, x->want.size());
		if (r.chance(1, 12)) kx::yield_fiber();
	}
	if (fp) kfiber_file_close(fp);
}
static void x_server(kconnection* cn, uint64_t) {
	if (cn->st.ssl && kfiber_ssl_handshake(cn) != 0) { mon::violation("sendfile.handshake", "handshake"); kfiber_net_close(cn); return; }
	uint64_t key = 0;
	int len = sizeof key;
	if (!kfiber_net_read_full(cn, (char*)&key, &len)) { mon::violation("sendfile.hello", "the first bytes could not be read"); kfiber_net_close(cn); return; }
	XCase* x;
	{ SpinGuard g(x_lk); x = xtab[key]; xtab.erase(key); }
	if (!x) { mon::violation("sendfile.hello", "wrong first bytes"); kfiber_net_close(cn); return; }
	MON_CHECK(selectable_support_sendfile(&cn->st), "sendfile.support", "transfers are not supported");
	if (x->r.chance(1, 2)) small_buffers(cn->st.fd, x->r);
	x->cn = cn;
	// what the peer sends is read meanwhile
	kfiber *rf = NULL, *hf = NULL;
	volatile bool rstop = false;
	if (x->from_peer) kx::spawn_local([&, x, cn](int) {
		char b[700];
		while (x->back < x->from_peer) {
			int got = kfiber_net_read(cn, b, 1 + x->id % 700);
			if (got <= 0) { MON_CHECK(x->end != 0, "sendfile.read", "reading failed (%d) after %lld of %lld", got, (long long)x->back, (long long)x->from_peer); break; }
			ssize_t d = differs(b, x->id, x->back, got);
			MON_CHECK(d < 0, "sendfile.read_content", "what was read during a transfer differs");
			x->back += got;
		}
		return 0;
	}, NULL, 0, 0, &rf);
	if (x->end == 2) kx::spawn_local([&, x, cn](int) {
		// once the peer has stopped, the connection is shut down under the waiting transfer
		while (!x->stopped && !x->over) kfiber_msleep(1);
		if (!x->over) kfiber_msleep(3);
		if (!x->over) mon::count("sendfile.shut_down");
		selectable_shutdown(&cn->st);
		x->hung_up = true;
		return 0;
	}, NULL, 0, 0, &hf);
	x_sender(x, cn);
	x->over = true;
	int rv;
	if (x->end != 0) selectable_shutdown(&cn->st);
	if (rf) kfiber_join(rf, &rv);
	if (hf) kfiber_join(hf, &rv);
	{ SpinGuard g(pend_lk); if (cn->st.ssl) pend.erase(cn->st.ssl->ssl); }
	kfiber_net_close(cn);
	kx::signal_done(&x->done);
}
static void x_client(XCase* x, uint64_t key) {
	kconnection* cn = kconnection_new(&srv[x->tls]->addr);
	Rng r(key + 3);
	if (kfiber_net_connect(cn, NULL, 0) != 0) mon::harness_error("connect");
	if (x->tls) {
		if (!kconnection_ssl_connect(cn, xcctx, NULL)) mon::harness_error("ssl_connect");
		if (kfiber_ssl_handshake(cn) != 0) mon::harness_error("client handshake");
	}
	int len = sizeof key;
	if (!kfiber_net_write_full(cn, (char*)&key, &len)) mon::violation("sendfile.hello", "could not write");
	kfiber* wf = NULL;
	if (x->from_peer) kx::spawn_local([x, cn](int) {
		char b[900];
		Rng q(x->id);
		while (x->peer_sent < x->from_peer) {
			int n = (int)std::min<int64_t>(x->from_peer - x->peer_sent, 1 + q.below(900)), left = n;
			fill(b, x->id, x->peer_sent, n);
			if (!kfiber_net_write_full(cn, b, &left)) break;
			x->peer_sent += n;
			if (q.chance(1, 6)) kfiber_msleep(1);
		}
		return 0;
	}, NULL, 0, 0, &wf);
	bool slow = r.chance(1, 3);
	std::vector<char> b(20000);
	for (;;) {
		if (x->end && (int64_t)x->got.size() >= x->stop_at) break;
		if (slow && r.chance(1, 4)) kfiber_msleep(1);
		int got = kfiber_net_read(cn, b.data(), 1 + r.below(r.chance(1, 2) ? 300 : 20000));
		if (got <= 0) break;
		x->got.append(b.data(), got);
	}
	x->stopped = true;
	if (x->end == 2) while (!x->hung_up && !x->over) kfiber_msleep(1);
	if (x->end == 3) {
		struct linger lg = { 1, 0 };
		setsockopt(cn->st.fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
	}
	int rv;
	if (x->end) selectable_shutdown(&cn->st);
	if (wf) kfiber_join(wf, &rv);
	kfiber_net_close(cn);
	kx::signal_done(&x->done);
}
static void x_hang(char* b, size_t n) {
	size_t k = 0;
	for (XCase* x : xlive) if (x->done < 2) {
		k += snprintf(b + k, k < n ? n - k : 0, "[#%d tls %d end %d: said %zu, got %zu, over %d stopped %d back %lld/%lld flags %x] ", x->id, x->tls, x->end, x->want.size(), x->got.size(), x->over, x->stopped, (long long)x->back, (long long)x->from_peer, x->cn ? x->cn->st.base.st_flags : 0);
		if (k >= n) return;
	}
}
static void mode_sendfile() {
	mon::on_hang = x_hang;
	kx::loops_start(mon::iarg("loops", 3));
	int jd = mon::iarg("jitter", 0);
	if (jd) kx::jitter_on(jd);
	on_conn = x_server;
	srv[0] = open_server(kx::loop4());
	int kinds = 1;
	if (mon::iarg("tls", 1)) {
		xcert = make_cert("server.test", 0);
		for (int i = 0; i < 2; i++) { xsctx[i] = server_ctx(xcert, XV[i]); srv[1 + i] = open_server(kx::loop4(), kgl_new_ssl_ctx(xsctx[i])); }
		xcctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
		kinds = 3;
	}
	Rng R(mon::seed * 71 + 11);
	for (int i = 0; i < 6; i++) {
		size_t n = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 4096 : i == 3 ? 300000 + R.below(1000) : R.below(30000);
		xpath.push_back(dir + "/x" + std::to_string(i));
		xbase.push_back(i == 4 ? (1ll << 31) - 300 : i == 5 ? (1ll << 32) - 300 : 0);
		xfile.push_back(put_file(xpath[i], n, mon::seed + i, xbase[i]));
	}
	int conc = 10;
	for (int base = 0; base < mon::cases && !mon::violated(); base += conc) {
		int n = std::min(conc, mon::cases - base);
		inject(R.below(3) ? R.below(60) : 0, R.below(2) ? R.below(25) : 0);
		mon::set_case("transfers %d..%d, short %d%%, would block %d%%", base, base + n - 1, short_num, again_num);
		std::vector<XCase*> xs;
		for (int i = 0; i < n; i++) {
			XCase* x = new XCase;
			x->id = base + i;
			x->r = Rng(mon::hash(mon::seed, 90000 + x->id));
			x->tls = (int)R.below(kinds);
			x->end = R.chance(1, 2) ? 0 : (int)R.below(4);
			x->from_peer = R.chance(1, 2) ? R.below(20000) : 0;
			x->stop_at = R.below(R.chance(1, 2) ? 3000 : 100000);
			x->ops = x->end ? 60 : 4 + R.below(20);
			xs.push_back(x);
		}
		xlive = xs;
		for (XCase* x : xs) {
			uint64_t key = mon::hash(mon::seed * 5, x->id);
			{ SpinGuard g(x_lk); xtab[key] = x; }
			kx::spawn(get_selector_by_index(R.below(kx::n_loops)), [x, key](int) { x_client(x, key); return 0; });
		}
		for (XCase* x : xs) {
			kx::wait_done(&x->done, 2);
			size_t i = 0;
			std::string all = x->want + x->maybe;
			while (i < x->got.size() && i < all.size() && x->got[i] == all[i]) i++;
			MON_CHECK(i == x->got.size(), "sendfile.content", "%s: byte %zu of %zu received differs or was never sent (results say %zu)", x->tls ? XV[x->tls - 1] : "plain", i, x->got.size(), x->want.size());
			if (x->end == 0) {
				MON_CHECK(x->got.size() == x->want.size(), "sendfile.total", "%s: results say %zu bytes, the peer received %zu", x->tls ? XV[x->tls - 1] : "plain", x->want.size(), x->got.size());
				MON_CHECK(x->back == x->from_peer, "sendfile.back", "read %lld of %lld", (long long)x->back, (long long)x->from_peer);
			} else if (x->failed) mon::count("sendfile.broken");
			mon::count(x->tls ? "sendfile.tls" : "sendfile.plain");
			mon::count("sendfile.bytes", x->got.size());
			mon::cover(x->sig);
			mon::eval();
		}
		xlive.clear();
		for (XCase* x : xs) delete x;
		mon::progress();
	}
}
int main(int argc, char** argv) {
	std::string m;
	for (int i = 1; i < argc; i++) if (!strncmp(argv[i], "--mode=", 7)) m = argv[i] + 7;
	mon::init(argc, argv, m == "sendfile" ? "C11" : "C12");
	mon::watchdog(mon::iarg("hang", 20));
	dir = tmpdir();
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = { 4000, 4000 };
	if (setrlimit(RLIMIT_NOFILE, &rl)) { getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
	if (m == "file") mode_file();
	else if (m == "sendfile") mode_sendfile();
	else mon::harness_error("mode %s", m.c_str());
	mon::finish();
}
