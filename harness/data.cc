// Single-threaded data structures against reference models: ordered tree, buffers, pool,
// counted strings and lists, addresses and sockets.
// WRAP: listen poll __poll_chk select
#include "kx.h"
#include "krbtree.h"
#include "kbuf.h"
#include "klib.h"
#include "klist.h"
#include "kstring.h"
#include "ksocket.h"
#include <limits.h>
#include <netdb.h>
#include <poll.h>
#include <deque>
#include <list>
#include <math.h>
#include <algorithm>

using std::string;
using std::vector;
static string mode;

// ============================================================== C18: ordered tree
namespace rbt {
static int64_t ncmp = 0;
static int cmp_kind = 0;
struct Item { int k; const char* s; string str; };
static int cmp_item(const void* a, const void* b) {
	ncmp++;
	switch (cmp_kind) {
	case 0: return rbtree_int_cmp(&((const Item*)a)->k, &((const Item*)b)->k);
	case 1: return rbtree_string_cmp(&((const Item*)a)->s, &((const Item*)b)->s);
	case 2: return rbtree_string_case_cmp(&((const Item*)a)->s, &((const Item*)b)->s);
	case 3: return rbtree_file_cmp(&((const Item*)a)->s, &((const Item*)b)->s);
	default: { int x = ((const Item*)a)->k, y = ((const Item*)b)->k; return x < y ? INT_MIN : (x > y ? INT_MAX : 0); }
	}
}
struct Less {
	bool operator()(const Item* a, const Item* b) const {
		switch (cmp_kind) {
		case 1: case 3: return strcmp(a->s, b->s) < 0;
		case 2: return strcasecmp(a->s, b->s) < 0;
		default: return a->k < b->k;
		}
	}
};
typedef std::map<const Item*, krb_node*, Less> Model;
static krb_node* par(krb_node* n) { return (krb_node*)(n->rb_parent_color & ~(uintptr_t)3); }
static bool black(krb_node* n) { return !n || (n->rb_parent_color & 1); }
static int walk(krb_node* n, krb_node* p, int depth, int* maxd, int64_t* cnt) {
	if (!n) return 1;
	if (depth > 200) { mon::violation("rbtree.cycle", "depth above 200"); return 0; }
	(*cnt)++;
	if (depth > *maxd) *maxd = depth;
	MON_CHECK(par(n) == p, "rbtree.parent", "a node does not point back to its parent");
	MON_CHECK(black(n) || (black(n->rb_left) && black(n->rb_right)), "rbtree.redred", "a red node has a red child");
	int l = walk(n->rb_left, n, depth + 1, maxd, cnt);
	int r = walk(n->rb_right, n, depth + 1, maxd, cnt);
	if (l && r) MON_CHECK(l == r, "rbtree.black_height", "black heights %d and %d below one node", l, r);
	return l && r && l == r ? l + (black(n) ? 1 : 0) : 0;
}
static void check(krb_tree* t, Model& m, bool links) {
	int maxd = 0;
	int64_t cnt = 0;
	MON_CHECK(black(t->root.rb_node), "rbtree.root_red", "the root is red");
	walk(t->root.rb_node, NULL, 1, &maxd, &cnt);
	MON_CHECK(cnt == (int64_t)m.size(), "rbtree.count", "%lld nodes for %zu keys", (long long)cnt, m.size());
	MON_CHECK(maxd <= 2 * log2((double)m.size() + 1) + 1e-9, "rbtree.depth", "depth %d with %zu keys", maxd, m.size());
	MON_CHECK(rbtree_is_empty(t) == m.empty(), "rbtree.is_empty", "is_empty %d with %zu keys", (int)rbtree_is_empty(t), m.size());
	if (!links) return;
	krb_node* n = rb_first(&t->root);
	for (auto& kv : m) {
		if (!n || n != kv.second || n->data != (void*)kv.first) { mon::violation("rbtree.forward", "forward walk differs from the sorted keys"); return; }
		n = rb_next(n);
	}
	MON_CHECK(n == NULL, "rbtree.forward_end", "forward walk continues after the last key");
	n = rb_last(&t->root);
	for (auto it = m.rbegin(); it != m.rend(); ++it) {
		if (!n || n != it->second) { mon::violation("rbtree.backward", "backward walk differs from the sorted keys"); return; }
		n = rb_prev(n);
	}
	MON_CHECK(n == NULL, "rbtree.backward_end", "backward walk continues after the first key");
	mon::count("rbtree.walks");
}
static int alloced, freed;
static krb_node* nn() { alloced++; return (krb_node*)malloc(sizeof(krb_node)); }
static void fn(krb_node* n) { freed++; free(n); }
struct It { Rng* rng; Model* m; vector<const Item*> seen, removed; int stop_at; int style; bool stopped; };
static iterator_ret visit(void* data, void* arg) {
	It* it = (It*)arg;
	if (it->stopped) mon::violation("rbtree.iterator_after_break", "visited a key after break");
	it->seen.push_back((const Item*)data);
	bool last = (int)it->seen.size() == it->stop_at;
	bool rm = it->style == 1 || (it->style == 2 && it->rng->chance(1, 2));
	if (rm) it->removed.push_back((const Item*)data);
	if (last) { it->stopped = true; return rm ? iterator_remove_break : iterator_break; }
	return rm ? iterator_remove_continue : iterator_continue;
}
static string rnd_str(Rng& r, int space) {
	string s;
	int n = r.below(6);
	for (int i = 0; i < n; i++) s += "aAbBcC\x80z"[r.below(space)];
	return s;
}
static void one(int ci) {
	Rng r = kx::rng_for(18, ci);
	cmp_kind = r.below(5);
	int space = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 200 : 100000;
	int ops = r.chance(1, 8) ? 3000 : r.range(20, 500);
	int bias = r.range(20, 80);
	int order = r.below(4);
	uint64_t sig = mon::hash(cmp_kind, space);
	mon::set_case("rbtree case %d cmp %d space %d ops %d", ci, cmp_kind, space, ops);
	krb_tree local, *t;
	bool heap = r.chance(1, 2);
	if (heap) t = rbtree_create();
	else { t = &local; memset(t, 0xAA, sizeof *t); rbtree_init(t); }
	Model m;
	std::list<Item> items;
	alloced = freed = 0;
	int model_nn = 0, model_fn = 0;
	int seq = 0;
	auto mk = [&](Item& it) {
		switch (order) {
		case 0: it.k = (int)r.below(space); break;
		case 1: it.k = seq++; break;
		case 2: it.k = -seq++; break;
		default: { static const int ext[] = { INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0, -1, 1, INT_MIN / 2 - 1, INT_MAX / 2 + 1 }; it.k = r.chance(1, 4) ? ext[r.below(9)] : (int)r.next(); }
		}
		it.str = rnd_str(r, 8);
		if (order == 1 || order == 2) { char b[16]; snprintf(b, 16, "%08d", order == 1 ? seq : 99999999 - seq); it.str = b; }
		it.s = it.str.c_str();
	};
	auto drop = [&](const Item* x) { for (auto i = items.begin(); i != items.end(); ++i) if (&*i == x) { items.erase(i); return; } };
	for (int o = 0; o < ops; o++) {
		int a = r.below(100);
		if (a < bias) { // insert
			items.emplace_back();
			Item& it = items.back();
			mk(it);
			int flag = -7;
			auto f = m.find(&it);
			ncmp = 0;
			bool two = r.chance(1, 2);
			krb_node* n = two ? rbtree_insert2(t, &it, &flag, cmp_item, nn) : rbtree_insert(t, &it, &flag, cmp_item);
			MON_CHECK(ncmp <= 2 * log2((double)m.size() + 1) + 1, "rbtree.insert_cost", "%lld comparisons with %zu keys", (long long)ncmp, m.size());
			if (f == m.end()) {
				MON_CHECK(flag == 1, "rbtree.insert_flag", "new key reported flag %d", flag);
				if (flag != 1) { items.pop_back(); break; }
				if (two) model_nn++;
				n->data = &it;
				m[&it] = n;
			} else {
				MON_CHECK(flag == 0 && n == f->second, "rbtree.insert_dup", "existing key: flag %d, node %s", flag, n == f->second ? "same" : "other");
				if (flag != 0) break;
				items.pop_back();
			}
			sig = mon::hash(sig, flag * 2 + two);
		} else if (a < bias + 12) { // lookups
			Item probe;
			if (!m.empty() && r.chance(1, 2)) { auto it = m.begin(); std::advance(it, r.below(m.size() > 50 ? 50 : m.size())); probe.k = it->first->k; probe.str = it->first->str; probe.s = probe.str.c_str(); }
			else mk(probe);
			auto f = m.find(&probe);
			krb_node* want = f == m.end() ? NULL : f->second;
			ncmp = 0;
			MON_CHECK(rbtree_find(t, &probe, cmp_item) == want, "rbtree.find", "lookup of a%s key", want ? "n inserted" : "n absent");
			MON_CHECK(ncmp <= 2 * log2((double)m.size() + 1) + 1, "rbtree.find_cost", "%lld comparisons with %zu keys", (long long)ncmp, m.size());
			int res = 12345;
			krb_node* n = rbtree_find2(t, &probe, cmp_item, &res);
			if (want) MON_CHECK(n == want && res == 0, "rbtree.find2", "existing key: result %d", res);
			else if (m.empty()) MON_CHECK(n == NULL, "rbtree.find2_empty", "node from an empty tree");
			else {
				// the last node on the path: the neighbour of the key on one side
				auto ub = m.upper_bound(&probe);
				krb_node* succ = ub == m.end() ? NULL : ub->second;
				krb_node* pred = ub == m.begin() ? NULL : std::prev(ub)->second;
				MON_CHECK(n && ((res < 0 && n == succ) || (res > 0 && n == pred)), "rbtree.find2_miss", "absent key: result %d is no neighbour", res);
			}
			n = rbtree_find_cover(t, &probe, cmp_item);
			auto ub = m.upper_bound(&probe);
			krb_node* cov = m.empty() ? NULL : ub == m.begin() ? m.rbegin()->second : std::prev(ub)->second;
			MON_CHECK(n == cov, "rbtree.find_cover", "covering node is wrong (%zu keys)", m.size());
			mon::count("rbtree.lookups");
		} else if (a < 97) { // remove
			if (m.empty()) continue;
			auto it = m.begin();
			int pick = r.below(3);
			if (pick == 1) it = std::prev(m.end());
			else if (pick == 2) { std::advance(it, r.below(m.size())); }
			const Item* x = it->first;
			krb_node* n = it->second;
			m.erase(it);
			if (r.chance(1, 2)) { rbtree_remove2(t, n, fn); model_fn++; }
			else rbtree_remove(t, n);
			drop(x);
			mon::count("rbtree.removed");
			sig = mon::hash(sig, 100 + pick);
		} else { // iterate
			It it;
			it.rng = &r; it.m = &m; it.stopped = false;
			it.style = ops == 3000 && !r.chance(1, 20) ? 0 : r.below(3);
			it.stop_at = r.chance(1, 3) ? -1 : r.range(1, (int)m.size() + 1);
			vector<const Item*> keys;
			for (auto& kv : m) keys.push_back(kv.first);
			rbtree_iterator(t, visit, &it);
			size_t want = it.stop_at > 0 && it.stop_at <= (int)keys.size() ? it.stop_at : keys.size();
			MON_CHECK(it.seen.size() == want && std::equal(it.seen.begin(), it.seen.end(), keys.begin()), "rbtree.iterator", "visited %zu of %zu keys, or in the wrong order", it.seen.size(), want);
			for (auto x : it.removed) { m.erase(x); }
			for (auto x : it.removed) drop(x);
			mon::count("rbtree.iterations");
			mon::count("rbtree.removed_in_iteration", it.removed.size());
			sig = mon::hash(sig, 200 + it.removed.size());
		}
		if (mon::violated()) break;
		if (m.size() < 40 || o % 16 == 0) check(t, m, m.size() < 40 || o % 64 == 0);
	}
	if (mon::violated()) return;
	check(t, m, true);
	MON_CHECK(alloced == model_nn && freed == model_fn, "rbtree.node_calls", "node functions called %d/%d times, wanted %d/%d", alloced, freed, model_nn, model_fn);
	mon::count("rbtree.max_keys", m.size() > 500);
	// empty it
	if (r.chance(1, 2)) {
		It it;
		it.rng = &r; it.m = &m; it.stopped = false; it.style = 1; it.stop_at = -1;
		size_t n = m.size();
		rbtree_iterator(t, visit, &it);
		MON_CHECK(it.seen.size() == n && rbtree_is_empty(t), "rbtree.clear", "iterating with removal left keys behind");
	} else {
		vector<krb_node*> ns;
		for (auto& kv : m) ns.push_back(kv.second);
		for (size_t i = ns.size(); i > 1; i--) std::swap(ns[i - 1], ns[r.below(i)]);
		for (auto n : ns) rbtree_remove(t, n);
		MON_CHECK(rbtree_is_empty(t), "rbtree.clear", "removing every key left keys behind");
	}
	if (heap) rbtree_destroy(t);
	mon::eval();
	mon::cover(sig);
	mon::sample("rbtree cmp %d order %d, %d operations, %zu keys at the end", cmp_kind, order, ops, m.size());
}
}

// ============================================================== C19: read/write buffer queue
namespace krw {
static uint64_t bytes;
static unsigned char nextb() { bytes++; return (unsigned char)(mon::hash(7, bytes) >> 9); }
static void fill(char* p, int n, std::deque<unsigned char>& to) { for (int i = 0; i < n; i++) { p[i] = (char)nextb(); to.push_back((unsigned char)p[i]); } }
static void one(int ci) {
	Rng r = kx::rng_for(19, ci);
	int chunk = r.chance(1, 4) ? r.range(1, 4) : r.chance(1, 2) ? r.range(5, 64) : r.range(65, 5000);
	int ops = r.range(10, 200);
	bool inserts = r.chance(1, 2);
	mon::set_case("krw case %d chunk %d ops %d inserts %d", ci, chunk, ops, inserts);
	bool heap = r.chance(1, 2);
	krw_buffer local, *b;
	int64_t a0 = wrap::alloc_stat().blocks;
	if (heap) b = krw_buffer_new(chunk);
	else { b = &local; krw_buffer_init(b, chunk); }
	std::deque<unsigned char> q;
	uint64_t sig = chunk;
	bool dangling = false; // an empty write buffer was asked for and not filled
	auto check = [&]() {
		MON_CHECK(b->total_len == (int)q.size(), "krw.length", "reported length %d, unread bytes %zu", b->total_len, q.size());
		if (q.empty()) return;
		WSABUF v[6];
		int want = r.range(1, 6);
		int n = krw_get_read_buffers(b, v, want);
		MON_CHECK(n >= 1 && n <= want, "krw.peek_count", "%d peek buffers of %d", n, want);
		size_t off = 0;
		for (int i = 0; i < n; i++) {
			for (size_t j = 0; j < v[i].iov_len; j++, off++) {
				if (off >= q.size() || (unsigned char)((char*)v[i].iov_base)[j] != q[off]) { mon::violation("krw.peek_bytes", "peeked byte %zu differs from what was written", off); return; }
			}
		}
		MON_CHECK(n == want || off == q.size(), "krw.peek_total", "peek ended after %zu of %zu bytes", off, q.size());
		mon::count("krw.peeks");
	};
	for (int o = 0; o < ops && !mon::violated(); o++) {
		int a = r.below(100);
		int sz = r.chance(1, 3) ? r.range(1, 3) : r.chance(1, 2) ? r.range(1, chunk + 3) : r.range(1, 3 * chunk + 5);
		if (sz > 9000) sz = 9000;
		if (a < 25) { // write
			char* t = (char*)malloc(sz);
			fill(t, sz, q);
			krw_write_str(b, t, sz);
			free(t);
			dangling = false;
		} else if (a < 32) { // numbers
			char t[40];
			if (r.chance(1, 2)) { int v = r.chance(1, 3) ? INT_MIN : r.chance(1, 3) ? INT_MAX : (int)r.next(); krw_write_int(b, v); snprintf(t, 40, "%d", v); }
			else { int64_t v = r.chance(1, 3) ? INT64_MIN : r.chance(1, 3) ? INT64_MAX : (int64_t)r.next(); krw_write_int64(b, v); snprintf(t, 40, "%lld", (long long)v); }
			for (char* p = t; *p; p++) q.push_back((unsigned char)*p);
			dangling = false;
			mon::count("krw.numbers");
		} else if (a < 50) { // direct fill
			int len = -1;
			char* p = krw_get_write_buffer(b, &len);
			MON_CHECK(p && len > 0 && len <= chunk, "krw.write_room", "write buffer of %d bytes with chunks of %d", len, chunk);
			if (mon::violated()) break;
			if (r.chance(1, 10) && !inserts) { dangling = true; mon::count("krw.unused_room"); }
			else {
				int n = r.range(1, len);
				fill(p, n, q);
				krw_write_success(b, n);
				dangling = false;
				mon::count("krw.direct_fills");
			}
		} else if (a < 62) { // append a block
			if (dangling) continue;
			kbuf* k = new_kbuf(sz);
			fill(k->data, sz, q);
			krw_append(b, k);
			mon::count("krw.appended");
		} else if (a < 70) { // insert a block in front
			if (!inserts) continue;
			kbuf* k = new_kbuf(sz);
			std::deque<unsigned char> f;
			fill(k->data, sz, f);
			q.insert(q.begin(), f.begin(), f.end());
			krw_insert(b, k);
			mon::count("krw.inserted");
		} else if (a < 85) { // read
			char* t = (char*)malloc(sz);
			int got = krw_read(b, t, sz);
			int want = KGL_MIN(sz, (int)q.size());
			MON_CHECK(got == want, "krw.read_count", "read returned %d, wanted %d", got, want);
			if (got > want || got < 0) got = 0;
			for (int i = 0; i < got; i++) { if ((unsigned char)t[i] != q.front()) { mon::violation("krw.read_bytes", "byte %d of a read differs", i); break; } q.pop_front(); }
			free(t);
			mon::count("krw.reads");
		} else { // peek and consume
			int len = -1;
			char* p = krw_get_read_buffer(b, &len);
			if (q.empty()) { MON_CHECK(p == NULL || len == 0, "krw.peek_empty", "%d bytes to read from an empty queue", len); continue; }
			MON_CHECK(p && len > 0 && len <= (int)q.size(), "krw.peek_len", "peek of %d bytes with %zu unread", len, q.size());
			if (mon::violated()) break;
			int n = r.chance(1, 3) ? r.range(0, (int)q.size()) : r.range(1, len);
			for (int i = 0; i < n && i < len; i++) if ((unsigned char)p[i] != q[i]) { mon::violation("krw.peek_bytes", "peeked byte %d differs", i); break; }
			bool more = krw_read_success(b, n);
			for (int i = 0; i < n; i++) q.pop_front();
			MON_CHECK(dangling || more == !q.empty(), "krw.more", "read_success says %s with %zu bytes left", more ? "more" : "none", q.size());
			mon::count("krw.consumed");
		}
		sig = mon::hash(sig, a * 1000 + sz);
		check();
	}
	if (!mon::violated() && r.chance(1, 2)) { // drain
		while (!q.empty()) {
			char t[300];
			int got = krw_read(b, t, r.range(1, 300));
			if (got <= 0 || got > (int)q.size()) { mon::violation("krw.drain", "read returned %d with %zu left", got, q.size()); break; }
			for (int i = 0; i < got; i++) { if ((unsigned char)t[i] != q.front()) { mon::violation("krw.read_bytes", "byte %d of a read differs", i); break; } q.pop_front(); }
		}
	}
	if (mon::violated()) return;
	if (heap) krw_buffer_destroy(b);
	else krw_buffer_clean(b);
	MON_CHECK(wrap::alloc_stat().blocks == a0 || q.size(), "krw.leak", "%lld blocks left", (long long)(wrap::alloc_stat().blocks - a0));
	mon::eval();
	mon::cover(sig);
	mon::sample("krw chunk %d, %d operations, inserts %d", chunk, ops, inserts);
}
}

// ============================================================== C20: growing buffer, chains, vectors
namespace ks {
static void ks_prog(Rng& r, int ci) {
	int size = r.chance(1, 3) ? r.range(1, 8) : r.range(1, 3000);
	ks_buffer local, *b;
	bool heap = r.chance(1, 2);
	if (heap) b = ks_buffer_new(size);
	else { b = &local; ks_buffer_init(b, size); }
	string q;
	uint64_t sig = size;
	int ops = r.range(5, 80);
	auto put = [&](int n) { string s; for (int i = 0; i < n; i++) s += (char)r.next(); return s; };
	auto check = [&]() {
		MON_CHECK(b->used == (int)q.size(), "ks.length", "length %d, stored %zu", b->used, q.size());
		MON_CHECK(b->used <= b->buf_size, "ks.capacity", "used %d of %d", b->used, b->buf_size);
		if (!mon::violated()) MON_CHECK(!memcmp(b->buf, q.data(), q.size()), "ks.bytes", "stored bytes differ");
	};
	for (int o = 0; o < ops && !mon::violated(); o++) {
		int a = r.below(100);
		int n = r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.range(1, 20) : r.range(1, 2500);
		if (a < 40) { string s = put(n); MON_CHECK(ks_write_str(b, s.data(), n), "ks.write", "write refused"); q += s; }
		else if (a < 50) {
			char t[40];
			if (r.chance(1, 2)) { int v = r.chance(1, 3) ? INT_MIN : (int)r.next(); ks_write_int(b, v); snprintf(t, 40, "%d", v); }
			else { int64_t v = r.chance(1, 3) ? INT64_MIN : (int64_t)r.next(); ks_write_int64(b, v); snprintf(t, 40, "%lld", (long long)v); }
			q += t;
		} else if (a < 80) {
			char* p;
			int len = -1;
			if (r.chance(1, 2)) p = ks_get_write_buffer(b, &len);
			else {
				WSABUF v[2];
				int c = ks_get_write_buffers(b, v, 2);
				MON_CHECK(c == 1, "ks.write_vec", "%d write buffers", c);
				p = (char*)v[0].iov_base; len = (int)v[0].iov_len;
			}
			MON_CHECK(p && len > 0, "ks.room", "no room: %d", len);
			if (mon::violated()) break;
			int w = r.range(0, len);
			string s = put(w);
			memset(p, 0x5a, len);
			memcpy(p, s.data(), w);
			ks_write_success(b, w);
			q += s;
			mon::count("ks.direct_fills");
		} else { // drop a consumed prefix
			if (q.empty()) continue;
			int hot = r.chance(1, 3) ? 0 : r.range(0, (int)q.size());
			int before = b->buf_size;
			ks_save_point(b, b->buf + hot);
			q.erase(0, hot);
			MON_CHECK(b->buf_size >= before, "ks.shrunk", "capacity went from %d to %d", before, b->buf_size);
			MON_CHECK(hot || b->used < b->buf_size, "ks.save_no_room", "no room after a save point at the start");
			mon::count("ks.save_points");
		}
		sig = mon::hash(sig, a * 100 + n);
		check();
	}
	if (!mon::violated()) {
		ks_buffer_switch_read(b);
		size_t off = 0;
		while (off < q.size() && !mon::violated()) {
			int len = -1;
			char* p;
			if (r.chance(1, 2)) p = ks_get_read_buffer(b, &len);
			else { WSABUF v[2]; MON_CHECK(ks_get_read_buffers(b, v, 2) == 1, "ks.read_vec", "not one read buffer"); p = (char*)v[0].iov_base; len = (int)v[0].iov_len; }
			MON_CHECK(len == (int)(q.size() - off) && !memcmp(p, q.data() + off, len), "ks.read_bytes", "reading %d bytes at %zu of %zu differs", len, off, q.size());
			int n = r.range(1, len > 0 ? len : 1);
			bool more = ks_read_success(b, n);
			off += n;
			MON_CHECK(more == (off < q.size()), "ks.more", "read_success says %d at %zu of %zu", more, off, q.size());
			mon::count("ks.reads");
		}
	}
	if (heap) ks_buffer_destroy(b);
	else ks_buffer_clean(b);
	mon::cover(sig);
}
static void seek_prog(Rng& r, int ci) {
	// a chain in which every block ends where its memory ends
	int nb = r.range(1, 7);
	string flat;
	kbuf* head = NULL;
	kbuf** tail = &head;
	uint64_t sig = nb;
	for (int i = 0; i < nb; i++) {
		int n = r.chance(1, 8) ? 0 : r.range(1, r.chance(1, 2) ? 4 : 60);
		kbuf* k = new_kbuf(n);
		for (int j = 0; j < n; j++) { k->data[j] = (char)r.next(); flat += k->data[j]; }
		*tail = k;
		k->next = NULL;
		tail = &k->next;
		sig = mon::hash(sig, n);
	}
	int offs = (int)flat.size() + 1;
	for (int off = 0; off < offs && !mon::violated(); off++) {
		// seeking to the very end is allowed: it gives nothing, or only empty blocks
		kbuf* hb = (kbuf*)malloc(sizeof(kbuf));
		memset(hb, 0xEE, sizeof *hb);
		const kbuf* k = kbuf_seek(head, off, hb);
		size_t p = off;
		int steps = 0;
		for (; k && steps < 20; k = k->next, steps++) {
			for (int j = 0; j < k->used; j++, p++) if (p >= flat.size() || k->data[j] != flat[p]) { mon::violation("seek.chain_bytes", "byte %zu differs after seeking to %d of %zu", p, off, flat.size()); break; }
			if (mon::violated()) break;
		}
		MON_CHECK(p == flat.size(), "seek.chain_total", "seek to %d gave %zu bytes of %zu", off, p - off, flat.size() - off);
		free(hb);
		// gather vector
		kgl_iovec* v = (kgl_iovec*)malloc(sizeof(kgl_iovec) * nb);
		int i = 0;
		for (kbuf* q = head; q; q = q->next, i++) { v[i].iov_base = q->data; v[i].iov_len = q->used; }
		MON_CHECK(kgl_get_bufs_size((WSABUF*)v, nb) == (int)flat.size(), "seek.size", "vector size %d, bytes %zu", kgl_get_bufs_size((WSABUF*)v, nb), flat.size());
		int bc = nb;
		if (off > 0 || r.chance(1, 2)) {
			kgl_iovec* w = kgl_iovec_seek(v, &bc, off);
			MON_CHECK(bc >= 0 && bc == nb - (int)(w - v), "seek.vec_count", "%d vectors left after seeking to %d", bc, off);
			p = off;
			for (int j = 0; j < bc; j++) for (size_t x = 0; x < w[j].iov_len; x++, p++) if (p >= flat.size() || ((char*)w[j].iov_base)[x] != flat[p]) { mon::violation("seek.vec_bytes", "byte %zu differs after seeking to %d", p, off); break; }
			MON_CHECK(p == flat.size(), "seek.vec_total", "seek to %d gave %zu bytes of %zu", off, p - off, flat.size() - off);
			MON_CHECK(kgl_get_bufs_size((WSABUF*)w, bc) == (int)flat.size() - off, "seek.size_left", "size after seek");
			mon::count("seek.vectors");
		}
		free(v);
		mon::count("seek.chains");
	}
	// repeated partial advance, as a full write does
	kgl_iovec* v = (kgl_iovec*)malloc(sizeof(kgl_iovec) * nb);
	int i = 0;
	for (kbuf* q = head; q; q = q->next, i++) { v[i].iov_base = q->data; v[i].iov_len = q->used; }
	kgl_iovec* w = v;
	int bc = nb;
	size_t pos = 0;
	while (pos < flat.size() && !mon::violated()) {
		int n = r.range(1, KGL_MIN(9, (int)(flat.size() - pos)));
		w = kgl_iovec_seek(w, &bc, n);
		pos += n;
		MON_CHECK(kgl_get_bufs_size((WSABUF*)w, bc) == (int)(flat.size() - pos), "seek.advance", "after %zu of %zu bytes the vector holds %d", pos, flat.size(), kgl_get_bufs_size((WSABUF*)w, bc));
		for (int j = 0; j < bc; j++) if (w[j].iov_len) { MON_CHECK(*(char*)w[j].iov_base == flat[pos], "seek.advance_byte", "wrong byte at %zu", pos); break; }
		mon::count("seek.advances");
	}
	free(v);
	destroy_kbuf(head);
	mon::cover(sig);
}
static void one(int ci) {
	Rng r = kx::rng_for(20, ci);
	int64_t a0 = wrap::alloc_stat().blocks;
	if (r.chance(1, 2)) { mon::set_case("ks case %d", ci); ks_prog(r, ci); }
	else { mon::set_case("seek case %d", ci); seek_prog(r, ci); }
	if (!mon::violated()) MON_CHECK(wrap::alloc_stat().blocks <= a0 + 2, "ks.leak", "%lld blocks left", (long long)(wrap::alloc_stat().blocks - a0));
	mon::eval();
}
}

// ============================================================== C21: pools
namespace pool {
struct Blk { size_t n; unsigned char pat; bool large; };
static vector<int> cleaned;
static void on_clean(void* d) { cleaned.push_back((int)(intptr_t)d); }
static void on_clean2(void* d) { cleaned.push_back((int)(intptr_t)d); }
static void on_clean3(void* d) { cleaned.push_back((int)(intptr_t)d); }
static void one(int ci) {
	Rng r = kx::rng_for(21, ci);
	kgl_pagesize = r.chance(1, 3) ? 0 : 4096;
	size_t psize;
	switch (r.below(5)) {
	case 0: psize = KGL_MIN_POOL_SIZE; break;
	case 1: psize = KGL_MIN_POOL_SIZE + r.below(200); break;
	case 2: psize = 512; break;
	case 3: psize = r.range(256, 3000); break;
	default: psize = KGL_DEFAULT_POOL_SIZE;
	}
	int ops = r.chance(1, 6) ? 800 : r.range(5, 200);
	mon::set_case("pool case %d size %zu ops %d page %u", ci, psize, ops, kgl_pagesize);
	int64_t a0 = wrap::alloc_stat().blocks;
	kgl_pool_t* p = kgl_create_pool(psize);
	std::map<char*, Blk> live;
	vector<int> cl; // data of registered cleanups in order
	vector<std::pair<kgl_cleanup_t*, int>> cls; // cleanup handles
	bool has2 = false, has3 = false;
	cleaned.clear();
	struct Arr { kgl_array_t* a; vector<uint64_t> ref; size_t es; };
	vector<Arr> arrs;
	uint64_t sig = psize;
	unsigned char pat = (unsigned char)r.next();
	// space taken by the library's own data in the pool is not visible here; only what was handed out
	auto add = [&](void* v, size_t n, size_t align, bool large, const char* what) {
		char* c = (char*)v;
		MON_CHECK(c != NULL, "pool.null", "%s of %zu bytes returned NULL", what, n);
		if (!c) return;
		MON_CHECK(align < 2 || (uintptr_t)c % align == 0, "pool.align", "%s of %zu bytes is not aligned to %zu", what, n, align);
		if (n) {
			auto nx = live.lower_bound(c);
			if (nx != live.end()) MON_CHECK(c + n <= nx->first, "pool.overlap", "%s of %zu bytes runs into the next live block (pool size %zu)", what, n, psize);
			if (nx != live.begin()) { auto pv = std::prev(nx); MON_CHECK(pv->first + pv->second.n <= c, "pool.overlap", "%s of %zu bytes starts inside a live block (pool size %zu)", what, n, psize); }
		}
		if (mon::violated()) return;
		memset(c, ++pat, n);
		if (n) live[c] = Blk{ n, pat, large };
		mon::count("pool.blocks");
	};
	auto verify = [&]() {
		for (auto& b : live) for (size_t i = 0; i < b.second.n; i++) if ((unsigned char)b.first[i] != b.second.pat) { mon::violation("pool.content", "byte %zu of a live block of %zu bytes changed (pool size %zu)", i, b.second.n, psize); return; }
		for (auto& a : arrs) {
			MON_CHECK(a.a->nelts == a.ref.size(), "array.count", "array has %zu elements, pushed %zu", a.a->nelts, a.ref.size());
			if (mon::violated()) return;
			for (size_t i = 0; i < a.ref.size(); i++) {
				unsigned char* e = (unsigned char*)a.a->elts + a.es * i;
				for (size_t j = 0; j < a.es; j++) if (e[j] != (unsigned char)(a.ref[i] >> (j % 8 * 8))) { mon::violation("array.content", "element %zu of %zu changed", i, a.ref.size()); return; }
			}
		}
		mon::count("pool.verified");
	};
	auto put = [&](Arr& a, void* e) {
		uint64_t v = r.next();
		unsigned char* c = (unsigned char*)e;
		for (size_t j = 0; j < a.es; j++) c[j] = (unsigned char)(v >> (j % 8 * 8));
		a.ref.push_back(v);
	};
	auto expect_clean = [&](const char* when) {
		vector<int> want(cl.rbegin(), cl.rend());
		MON_CHECK(cleaned == want, "pool.cleanup", "at %s %zu cleanups ran of %zu registered, or not newest first", when, cleaned.size(), want.size());
		mon::count("pool.cleanups", cleaned.size());
		cleaned.clear(); cl.clear(); cls.clear(); has2 = has3 = false;
	};
	for (int o = 0; o < ops && !mon::violated(); o++) {
		int a = r.below(100);
		size_t n = r.chance(1, 5) ? r.below(4) : r.chance(1, 2) ? r.below(64) : r.chance(1, 2) ? r.below((uint32_t)psize + 64) : r.below(6000);
		if (r.chance(1, 10)) n = p->max + r.range(-2, 2);
		bool large = n > p->max;
		if (a < 35) add(kgl_palloc(p, n), n, large ? 16 : 8, large, "aligned block");
		else if (a < 60) add(kgl_pnalloc(p, n), n, 1, large, "block");
		else if (a < 66) {
			size_t al = (size_t)16 << r.below(9);
			if (n == 0) n = 1;
			add(kgl_pmemalign(p, n, al), n, al, true, "specially aligned block");
		} else if (a < 69) { // buffers made in a pool
			if (n == 0) n = 1;
			kbuf* k = r.chance(1, 2) ? new_pool_kbuf_align(p, (int)n) : new_pool_kbuf(p, (int)n);
			MON_CHECK(k->used == (int)n && k->data, "pool.kbuf", "pool buffer of %zu bytes says %d", n, k->used);
			memset(k->data, 1, n);
		} else if (a < 77) { // give a block back
			bool did = false;
			if (!live.empty()) {
				auto it = live.begin();
				std::advance(it, r.below(live.size() > 20 ? 20 : live.size()));
				char* c = it->first;
				bool lg = it->second.large;
				bool ok = kgl_pfree(p, c);
				MON_CHECK(ok == lg, "pool.pfree", "freeing a %s block returned %d", lg ? "large" : "small", (int)ok);
				if (ok) live.erase(it);
				did = true;
				mon::count("pool.freed", ok);
			}
			if (!did) { int x; MON_CHECK(!kgl_pfree(p, &x), "pool.pfree_foreign", "freed a foreign pointer"); }
		} else if (a < 84) { // cleanups
			int id = ci * 1000 + o;
			switch (r.below(4)) {
			case 0: { kgl_cleanup_t* c = kgl_cleanup_insert(p, on_clean2); if (!has2) { has2 = true; kgl_cleanup_set_data(c, (void*)(intptr_t)id); cl.push_back(id); cls.push_back({ c, id }); }
				else { bool same = false; for (auto& x : cls) if (x.first == c) { same = true; MON_CHECK((int)(intptr_t)kgl_cleanup_get_data(c) == x.second, "pool.cleanup_data", "cleanup data changed"); } MON_CHECK(same, "pool.cleanup_insert", "a second insert of one handler made a new entry"); } break; }
			case 1: { kgl_cleanup_t* c = kgl_cleanup_insert(p, on_clean3); if (!has3) { has3 = true; kgl_cleanup_set_data(c, (void*)(intptr_t)id); cl.push_back(id); cls.push_back({ c, id }); } break; }
			default: { kgl_cleanup_t* c = kgl_cleanup_add(p, on_clean, (void*)(intptr_t)id); cl.push_back(id); cls.push_back({ c, id }); }
			}
		} else if (a < 88) {
			Arr x;
			x.es = r.range(1, r.chance(1, 3) ? 100 : 16);
			size_t cap = r.range(1, 6);
			x.a = kgl_array_create(p, cap, x.es);
			arrs.push_back(x);
			mon::count("array.created");
		} else if (a < 97) {
			if (arrs.empty()) continue;
			Arr& x = arrs[r.below(arrs.size())];
			if (x.ref.size() > 400) continue;
			if (r.chance(2, 3)) { void* e = kgl_array_push(x.a); MON_CHECK(e == (char*)x.a->elts + x.es * x.ref.size(), "array.place", "pushed element is not at the end"); put(x, e); mon::count("array.pushed"); }
			else {
				size_t k = r.range(1, 9);
				char* e = (char*)kgl_array_push_n(x.a, k);
				MON_CHECK(e == (char*)x.a->elts + x.es * x.ref.size(), "array.place", "pushed elements are not at the end");
				for (size_t i = 0; i < k; i++) put(x, e + i * x.es);
				mon::count("array.pushed", k);
			}
		} else if (a < 98) {
			if (arrs.empty()) continue;
			kgl_array_destroy(arrs.back().a);
			arrs.pop_back();
			mon::count("array.destroyed");
		} else if (a == 98 && r.chance(1, 3)) {
			verify();
			arrs.clear();
			live.clear();
			kgl_reset_pool(p);
			expect_clean("reset");
			mon::count("pool.resets");
		}
		sig = mon::hash(sig, a * 10000 + n);
		if (o % 8 == 0) verify();
	}
	if (mon::violated()) return;
	verify();
	arrs.clear();
	kgl_destroy_pool(p);
	expect_clean("destruction");
	live.clear();
	cl = vector<int>(); cls.clear(); cleaned = vector<int>();
	MON_CHECK(wrap::alloc_stat().blocks <= a0, "pool.leak", "%lld blocks left after destroying the pool", (long long)(wrap::alloc_stat().blocks - a0));
	mon::eval();
	mon::cover(sig);
	mon::sample("pool of %zu bytes, %d operations", psize, ops);
}
}

// ============================================================== C22: counted strings, lists, atomics
namespace str {
struct Holders { kgl_ref_str_t* s; string ref; volatile int go; volatile int done; int rounds; };
static void* holder(void* a) {
	Holders* h = (Holders*)a;
	kgl_ref_str_t* mine = h->s; // each thread owns one reference
	mon_fetch_add32(&h->go, -1);
	while (mon_load32(&h->go) > 0) kx::spin(10);
	for (int i = 0; i < h->rounds; i++) {
		kgl_ref_str_t* t = kstring_refs(mine);
		if (t->len != h->ref.size() || memcmp(t->data, h->ref.data(), t->len)) { mon::violation("kstring.shared", "bytes of a shared string changed"); break; }
		kstring_release(mine);
		mine = t;
	}
	kstring_release(mine);
	kx::signal_done(&h->done);
	return NULL;
}
static void strings(Rng& r, int ci) {
	int n = r.chance(1, 6) ? 0 : r.range(1, 300);
	char* src = (char*)malloc(n ? n : 1);
	bool zeros = r.chance(1, 2);
	for (int i = 0; i < n; i++) src[i] = zeros && r.chance(1, 8) ? 0 : (char)(1 + r.below(255));
	string ref(src, n);
	kgl_ref_str_t* s;
	int kind = r.below(3);
	int64_t a0 = wrap::alloc_stat().blocks;
	if (kind == 0) {
		s = kstring_from2(src, n);
	} else if (kind == 1) {
		string c(ref.c_str());
		ref = c;
		s = kstring_from(ref.c_str());
	} else {
		char* d = (char*)malloc(n ? n : 1);
		memcpy(d, src, n);
		s = convert_refs_string(d, n);
	}
	memset(src, 0x77, n); // the string keeps its own copy
	free(src);
	MON_CHECK(s && s->len == ref.size(), "kstring.length", "length %u, wanted %zu", s ? s->len : 0, ref.size());
	MON_CHECK(kstring_get_ref(s) == 1, "kstring.ref1", "a new string has %u references", kstring_get_ref(s));
	MON_CHECK(!memcmp(s->data, ref.data(), ref.size()), "kstring.bytes", "bytes differ");
	if (kind != 2) MON_CHECK(s->data[ref.size()] == 0, "kstring.nul", "no terminating zero");
	MON_CHECK(kgl_len_str_size(n) >= sizeof(kgl_len_str_t) + n + 1, "kstring.len_str", "room for a length string");
	MON_CHECK(kstring_refs(NULL) == NULL && kstring_from(NULL) == NULL, "kstring.null", "NULL gives a string");
	kstring_release(NULL);
	int extra = r.below(6);
	for (int i = 0; i < extra; i++) { MON_CHECK(kstring_refs(s) == s, "kstring.refs", "reference to another string"); MON_CHECK(kstring_get_ref(s) == (uint32_t)(i + 2), "kstring.count", "count %u after %d references", kstring_get_ref(s), i + 1); }
	mon::count("kstring.single");
	if (r.chance(1, 8)) {
		// the references live on different threads
		int nt = r.range(2, 4);
		Holders h;
		h.s = s; h.ref = ref; h.done = 0; h.go = nt; h.rounds = r.range(20, 200);
		for (int i = 0; i < nt; i++) kstring_refs(s);
		pthread_t t[4];
		int64_t b0 = wrap::alloc_stat().blocks;
		for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, holder, &h);
		// drop ours at any moment
		mon::real_usleep(r.below(200));
		for (int i = 0; i < extra; i++) kstring_release(s);
		kstring_release(s);
		for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
		MON_CHECK(wrap::alloc_stat().blocks == b0 - 2, "kstring.shared_leak", "%lld blocks instead of 2 were freed", (long long)(b0 - wrap::alloc_stat().blocks));
		mon::count("kstring.threads", nt);
	} else {
		for (int i = 0; i < extra; i++) {
			kstring_release(s);
			MON_CHECK(s->len == ref.size() && !memcmp(s->data, ref.data(), ref.size()), "kstring.alive", "a string with holders changed");
		}
		int64_t b = wrap::alloc_stat().blocks;
		kstring_release(s);
		MON_CHECK(wrap::alloc_stat().blocks == b - 2, "kstring.leak", "the last release freed %lld blocks instead of 2", (long long)(b - wrap::alloc_stat().blocks));
	}
	mon::cover(mon::hash(mon::hash(n, kind), extra * 2 + zeros));
}
struct Node { int id; kgl_list l; kgl_forward_list f; };
static void lists(Rng& r, int ci) {
	kgl_list h, h2;
	klist_init(&h);
	klist_init(&h2);
	std::list<Node*> m, m2;
	kgl_forward_list fh;
	kforward_list_init(&fh);
	std::list<Node*> fm;
	vector<Node*> all;
	int ops = r.range(5, 80);
	uint64_t sig = 0;
	auto check = [&](kgl_list* h, std::list<Node*>& m) {
		kgl_list* pos;
		auto it = m.begin();
		int n = 0;
		klist_foreach(pos, h) { if (it == m.end() || kgl_list_data(pos, Node, l) != *it) { mon::violation("klist.forward", "forward order differs"); return; } ++it; if (++n > 500) break; }
		MON_CHECK(it == m.end(), "klist.short", "entries missing");
		auto rit = m.rbegin();
		n = 0;
		klist_rforeach(pos, h) { if (rit == m.rend() || kgl_list_data(pos, Node, l) != *rit) { mon::violation("klist.backward", "backward order differs"); return; } ++rit; if (++n > 500) break; }
		MON_CHECK(rit == m.rend(), "klist.short", "entries missing backwards");
		MON_CHECK(klist_empty(h) == m.empty(), "klist.empty", "emptiness differs");
		if (!m.empty()) {
			kgl_list* a = klist_head(h);
			kgl_list* b = klist_end(h);
			MON_CHECK(kgl_list_data(a, Node, l) == m.front() && kgl_list_data(b, Node, l) == m.back(), "klist.ends", "ends differ");
		}
		mon::count("klist.walks");
	};
	for (int o = 0; o < ops && !mon::violated(); o++) {
		int a = r.below(10);
		if (a < 4) {
			Node* x = (Node*)malloc(sizeof(Node));
			x->id = o;
			all.push_back(x);
			bool second = r.chance(1, 3);
			if (r.chance(1, 4) && !m.empty() && !second) { // in front of an entry
				auto it = m.begin();
				std::advance(it, r.below(m.size()));
				klist_insert(&(*it)->l, &x->l);
				m.insert(it, x);
			} else { if (second) { klist_append(&h2, &x->l); m2.push_back(x); } else { klist_insert_tail(&h, &x->l); m.push_back(x); } }
			kforward_list_append(&fh, &x->f);
			fm.push_front(x);
		} else if (a < 6) {
			if (m.empty()) continue;
			auto it = m.begin();
			std::advance(it, r.below(m.size()));
			klist_remove(&(*it)->l);
			if (r.chance(1, 2)) { klist_append(&h2, &(*it)->l); m2.push_back(*it); mon::count("klist.moved"); }
			m.erase(it);
		} else if (a < 8) {
			if (all.empty()) continue;
			Node* x = all[r.below(all.size())];
			bool in = std::find(fm.begin(), fm.end(), x) != fm.end();
			bool ok = kfoward_list_remove(&fh, &x->f);
			MON_CHECK(ok == in, "flist.remove", "removing an entry %s the list returned %d", in ? "of" : "not in", (int)ok);
			if (in) fm.remove(x);
			mon::count("flist.removes");
		} else {
			kgl_forward_list* p = fh.next;
			for (auto x : fm) { if (p != &x->f) { mon::violation("flist.order", "order differs"); break; } p = p->next; }
			MON_CHECK(mon::violated() || p == &fh, "flist.end", "list does not end");
			MON_CHECK(kforward_list_empty(&fh) == fm.empty(), "flist.empty", "emptiness differs");
		}
		check(&h, m);
		check(&h2, m2);
		sig = mon::hash(sig, a);
	}
	for (auto x : all) free(x);
	mon::cover(sig);
}
struct At { volatile uint32_t c32; volatile uint64_t c64; volatile int16_t c16; volatile uint32_t bag; volatile int32_t cas; volatile int64_t cas64; volatile int16_t cas16; volatile int64_t taken; int rounds; volatile int done;
	// halves and quarters of shared words: an operation on one must leave its neighbours alone
	struct { volatile uint16_t h[4]; volatile uint32_t w[2]; volatile uint64_t q[2]; } n; volatile int id; volatile int64_t taken16, taken64; };
static void neighbours(At* a, int me, int rounds) {
	// each thread owns its own part of a shared word; nobody else writes it
	uint16_t mine16 = 0; uint32_t mine32 = 0; uint64_t mine64 = 0;
	for (int i = 0; i < rounds; i++) {
		uint16_t v = (uint16_t)(i * 7 + me);
		if (me < 4) {
			uint16_t o = katom_set16((void*)&a->n.h[me], v);
			MON_CHECK(o == mine16, "katom.neighbour16", "a 16-bit cell holds %u, its only writer left %u", o, mine16);
			mine16 = v;
			if (i % 3 == 0) { katom_inc16((void*)&a->n.h[me]); mine16++; }
			if (i % 5 == 0) { MON_CHECK(katom_cas16((void*)&a->n.h[me], (int16_t)mine16, (int16_t)(mine16 + 9)), "katom.neighbour16", "a compare-and-swap with the right value failed"); mine16 = (uint16_t)(mine16 + 9); }
		}
		if (me < 2) {
			uint32_t o = katom_set((void*)&a->n.w[me], v * 65537u);
			MON_CHECK(o == mine32, "katom.neighbour32", "a 32-bit cell holds %u, its only writer left %u", o, mine32);
			mine32 = v * 65537u;
			katom_dec((void*)&a->n.w[me]); mine32--;
			uint64_t p = (uint64_t)katom_set64((void*)&a->n.q[me], v * 0x100000001ull);
			MON_CHECK(p == mine64, "katom.neighbour64", "a 64-bit cell holds %llu, its only writer left %llu", (unsigned long long)p, (unsigned long long)mine64);
			mine64 = v * 0x100000001ull;
			katom_sub64((void*)&a->n.q[me], 0x1234567890ll); mine64 -= 0x1234567890ll;
		}
		if (mon::violated()) return;
	}
}
static volatile int16_t g_bag16;
static volatile int64_t g_bag64;
static void* at_thread(void* p) {
	At* a = (At*)p;
	for (int i = 0; i < a->rounds; i++) {
		katom_inc((void*)&a->c32);
		katom_inc64((void*)&a->c64);
		if (i % 2) katom_inc16((void*)&a->c16); else katom_dec16((void*)&a->c16);
		katom_add((void*)&a->c32, 3);
		katom_sub((void*)&a->c32, 2);
		katom_add64((void*)&a->c64, 10);
		katom_sub64((void*)&a->c64, 9);
		int32_t v;
		do { v = a->cas; } while (!katom_cas((void*)&a->cas, v, v + 1));
		int64_t w;
		do { w = a->cas64; } while (!katom_cas64((void*)&a->cas64, w, w + 1));
		int16_t x;
		do { x = a->cas16; } while (!katom_cas16((void*)&a->cas16, x, (int16_t)(x + 1)));
		// a token is handed over by exchange: the sum of what was put and what was taken agree
		uint32_t old = katom_set((void*)&a->bag, (uint32_t)i + 1);
		mon_fetch_add(&a->taken, (int64_t)old - (i + 1));
		uint16_t old16 = katom_set16((void*)&g_bag16, (uint16_t)(i + 1));
		mon_fetch_add(&a->taken16, (int64_t)old16 - (i + 1));
		int64_t old64 = katom_set64((void*)&g_bag64, (uint64_t)(i + 1) << 33);
		mon_fetch_add(&a->taken64, (old64 >> 33) - (i + 1));
	}
	neighbours(a, __sync_fetch_and_add(&a->id, 1), a->rounds);
	kx::signal_done(&a->done);
	return NULL;
}
static void atoms(Rng& r, int ci) {
	At a;
	memset(&a, 0, sizeof a);
	g_bag16 = 0; g_bag64 = 0;
	a.rounds = r.range(100, 800);
	int nt = r.range(2, 4);
	uint32_t s32 = r.chance(1, 2) ? 0xffffff00u : 5;
	uint64_t s64 = r.chance(1, 2) ? 0xfffffff0ull : 7;
	a.c32 = s32; a.c64 = s64;
	pthread_t t[4];
	for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, at_thread, &a);
	for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
	uint64_t n = (uint64_t)nt * a.rounds;
	MON_CHECK(katom_get((void*)&a.c32) == (uint32_t)(s32 + 2 * n), "katom.32", "lost 32-bit update: %u after %llu rounds", a.c32, (unsigned long long)n);
	MON_CHECK(katom_get64((void*)&a.c64) == s64 + 2 * n, "katom.64", "lost 64-bit update");
	MON_CHECK(a.c16 == (int16_t)(-(int)(a.rounds % 2) * nt), "katom.16", "lost 16-bit update: %d", a.c16);
	MON_CHECK((uint64_t)a.cas == n && (uint64_t)a.cas64 == n && a.cas16 == (int16_t)n, "katom.cas", "lost compare-and-swap update");
	MON_CHECK(a.taken16 + (int64_t)(uint16_t)g_bag16 == 0 && a.taken64 + (g_bag64 >> 33) == 0, "katom.set16_64", "an exchanged 16- or 64-bit value was lost or seen twice");
	MON_CHECK(a.taken + (int64_t)a.bag == 0, "katom.set", "an exchanged value was lost or seen twice");
	// single-thread return values
	uint32_t v = (uint32_t)r.next();
	uint32_t x = v;
	MON_CHECK(katom_inc(&x) == v + 1 && katom_dec(&x) == v && katom_add(&x, 7) == v && katom_sub(&x, 7) == v + 7 && katom_get(&x) == v && katom_set(&x, 9) == v && x == 9, "katom.return32", "return value of a 32-bit operation");
	int64_t y = (int64_t)r.next() >> 1, y0 = y;
	MON_CHECK((int64_t)katom_inc64(&y) == y0 + 1 && katom_dec64(&y) == y0 && katom_add64(&y, 5) == y0 && katom_sub64(&y, 5) == y0 + 5 && (int64_t)katom_get64(&y) == y0 && katom_set64(&y, 3) == y0 && y == 3, "katom.return64", "return value of a 64-bit operation");
	int16_t z = 41;
	MON_CHECK(katom_inc16(&z) == 42 && katom_dec16(&z) == 41 && katom_cas16(&z, 41, 5) && !katom_cas16(&z, 41, 6) && z == 5 && katom_set16(&z, 77) == 5 && z == 77, "katom.return16", "return value of a 16-bit operation");
	int32_t c = 10;
	MON_CHECK(!katom_cas(&c, 11, 12) && c == 10 && katom_cas(&c, 10, 12) && c == 12, "katom.cas_return", "compare-and-swap result");
	mon::count("katom.cases");
	mon::cover(mon::hash(a.rounds, nt));
}
static void one(int ci) {
	Rng r = kx::rng_for(22, ci);
	mon::set_case("string case %d", ci);
	int k = r.below(10);
	if (k < 6) strings(r, ci);
	else if (k < 9) lists(r, ci);
	else atoms(r, ci);
	mon::eval();
}
}

// ============================================================== C28: addresses and sockets
namespace addr {
static sockaddr_i rnd(Rng& r) {
	sockaddr_i a;
	memset(&a, 0, sizeof a);
	if (r.chance(1, 2)) {
		a.v4.sin_family = PF_INET;
		static const uint32_t ext[] = { 0, 0xffffffffu, 0x7fffffffu, 0x80000000u, 1, 0x7f000001u, 0x0100007fu };
		a.v4.sin_addr.s_addr = r.chance(1, 3) ? ext[r.below(7)] : (uint32_t)r.next();
		a.v4.sin_port = htons((uint16_t)r.next());
	} else {
		a.v6.sin6_family = PF_INET6;
		for (int i = 0; i < 16; i++) a.v6.sin6_addr.s6_addr[i] = r.chance(1, 2) ? 0 : r.chance(1, 4) ? 0xff : (uint8_t)r.next();
		if (r.chance(1, 6)) { memset(&a.v6.sin6_addr, 0, 16); a.v6.sin6_addr.s6_addr[15] = r.chance(1, 2); }
		if (r.chance(1, 6)) { memset(&a.v6.sin6_addr, 0, 10); a.v6.sin6_addr.s6_addr[10] = a.v6.sin6_addr.s6_addr[11] = 0xff; }
		a.v6.sin6_port = htons((uint16_t)r.next());
	}
	return a;
}
static bool linklocal(const sockaddr_i& a) { return a.v4.sin_family == PF_INET6 && (IN6_IS_ADDR_LINKLOCAL(&a.v6.sin6_addr) || IN6_IS_ADDR_MC_LINKLOCAL(&a.v6.sin6_addr)); }
static bool same_ip(const sockaddr_i& a, const sockaddr_i& b) {
	if (a.v4.sin_family != b.v4.sin_family) return false;
	if (a.v4.sin_family == PF_INET) return a.v4.sin_addr.s_addr == b.v4.sin_addr.s_addr;
	return !memcmp(&a.v6.sin6_addr, &b.v6.sin6_addr, 16);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void texts(Rng& r) {
	sockaddr_i a = rnd(r);
	char want[INET6_ADDRSTRLEN];
	bool v4 = a.v4.sin_family == PF_INET;
	inet_ntop(a.v4.sin_family, v4 ? (void*)&a.v4.sin_addr : (void*)&a.v6.sin6_addr, want, sizeof want);
	int need = (int)strlen(want) + 1;
	int len = r.chance(1, 2) ? MAXIPLEN : r.chance(1, 2) ? need : r.range(1, 46);
	char* ip = (char*)malloc(len);
	memset(ip, 'x', len);
	bool ok = ksocket_sockaddr_ip(&a, ip, len);
	if (len >= need) MON_CHECK(ok && !strcmp(ip, want), "addr.format", "formatted '%.*s', system says '%s'", len, ip, want);
	else MON_CHECK(!ok && ip[0] == 0, "addr.format_short", "formatting into %d bytes of %d: %d", len, need, (int)ok);
	free(ip);
	// the bare address
	ip_addr ia;
	memset(&ia, r.chance(1, 2) ? 0xCD : 0, sizeof ia);
	ksocket_ipaddr(&a, &ia);
	char b[MAXIPLEN];
	ok = ksocket_ipaddr_ip(&ia, b, sizeof b);
	MON_CHECK(ok && !strcmp(b, want), "addr.ip_format", "bare address formatted '%s', system says '%s'", b, want);
	// parse back
	uint16_t port = (uint16_t)r.next();
	sockaddr_i p;
	memset(&p, 0xEE, sizeof p);
	int fam = r.chance(1, 2) ? AF_UNSPEC : a.v4.sin_family;
	ok = ksocket_getaddr(want, port, fam, AI_NUMERICHOST, &p);
	MON_CHECK(ok && same_ip(a, p) && ksocket_addr_port(&p) == port, "addr.parse", "'%s' port %d did not parse back", want, port);
	if (ok) {
		MON_CHECK(ksocket_addr_len(&p) == (v4 ? (int)sizeof(sockaddr_in) : (int)sizeof(sockaddr_in6)), "addr.len", "length %d", ksocket_addr_len(&p));
		if (v4) { char z[8] = {}; MON_CHECK(!memcmp(p.v4.sin_zero, z, 8), "addr.parse_padding", "padding not zero"); }
		else MON_CHECK(p.v6.sin6_flowinfo == 0 && p.v6.sin6_scope_id == 0, "addr.parse_rest", "flow or scope not zero");
	}
	// the other family is refused (the system maps a v4-mapped address)
	sockaddr_i q;
	ok = !v4 && IN6_IS_ADDR_V4MAPPED(&a.v6.sin6_addr) ? false : ksocket_getaddr(want, port, v4 ? AF_INET6 : AF_INET, AI_NUMERICHOST, &q);
	MON_CHECK(!ok, "addr.parse_family", "'%s' parsed as the other family", want);
	ip_addr g;
	memset(&g, 0xAB, sizeof g);
	ok = ksocket_get_ipaddr(want, &g);
	MON_CHECK(ok && g.sin_family == a.v4.sin_family && ksocket_ipaddr_compare(&g, &ia) == 0 && g == ia, "addr.get_ipaddr", "'%s' gives another address", want);
	MON_CHECK(!ok || g.get_hash() == ia.get_hash(), "addr.ip_hash", "'%s': equal addresses hash to %u and %u", want, g.get_hash(), ia.get_hash());
	mon::count("addr.round_trips");
	// malformed text
	string bad = want;
	switch (r.below(6)) {
	case 0: bad += "g"; break;
	case 1: bad = "x" + bad; break;
	case 2: bad += v4 ? ".1" : ":1:2:3:4:5:6:7:8"; break;
	case 3: bad = "256.1.1." + std::to_string(r.below(256)); break;
	case 4: bad = ":::" + std::to_string(r.below(10)); break;
	default: bad = bad + " "; bad += "z";
	}
	unsigned char tmp[16];
	bool sys = inet_pton(AF_INET, bad.c_str(), tmp) == 1 || inet_pton(AF_INET6, bad.c_str(), tmp) == 1;
	struct in_addr old;
	if (!sys && !inet_aton(bad.c_str(), &old)) {
		MON_CHECK(!ksocket_get_ipaddr(bad.c_str(), &g), "addr.malformed", "'%s' was accepted", bad.c_str());
		mon::count("addr.malformed");
	}
	mon::cover(mon::hash_bytes(want, strlen(want)));
}
static void order(Rng& r) {
	// comparison: total order, consistent with equality and hash
	const int n = 7;
	sockaddr_i a[n];
	for (int i = 0; i < n; i++) { a[i] = rnd(r); if (i && r.chance(1, 4)) { a[i] = a[r.below(i)]; a[i].v4.sin_port = (uint16_t)r.next(); } }
	ip_addr ip[n];
	for (int i = 0; i < n; i++) { memset(&ip[i], (int)r.next(), sizeof ip[i]); ksocket_ipaddr(&a[i], &ip[i]); }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		int c = sgn(ksocket_addr_compare(&a[i], &a[j])), d = sgn(ksocket_addr_compare(&a[j], &a[i]));
		int e = sgn(ksocket_ipaddr_compare(&ip[i], &ip[j])), f = sgn(ksocket_ipaddr_compare(&ip[j], &ip[i]));
		bool eq = same_ip(a[i], a[j]);
		MON_CHECK((c == 0) == eq && (e == 0) == eq, "addr.compare_equal", "comparison says %d/%d for %s addresses", c, e, eq ? "equal" : "different");
		MON_CHECK(c == -d && e == -f, "addr.compare_sign", "comparison is not antisymmetric");
		MON_CHECK((ip[i] == ip[j]) == eq && !(ip[i] < ip[j] && ip[j] < ip[i]) && (ip[i] < ip[j] || ip[j] < ip[i]) == !eq, "addr.operators", "operators disagree with equality");
		if (eq) {
			MON_CHECK(ksocket_addr_hash(&a[i]) == ksocket_addr_hash(&a[j]), "addr.hash", "equal addresses hash differently");
			MON_CHECK(ip[i].get_hash() == ip[j].get_hash(), "addr.ip_hash", "equal bare addresses hash differently");
			mon::count("addr.equal_pairs");
		}
		for (int k = 0; k < n; k++) {
			if (c <= 0 && ksocket_addr_compare(&a[j], &a[k]) <= 0) MON_CHECK(ksocket_addr_compare(&a[i], &a[k]) <= 0, "addr.compare_transitive", "comparison is not transitive");
			if (e <= 0 && ksocket_ipaddr_compare(&ip[j], &ip[k]) <= 0) MON_CHECK(ksocket_ipaddr_compare(&ip[i], &ip[k]) <= 0, "addr.ip_compare_transitive", "comparison of bare addresses is not transitive");
		}
		if (ip[i].sin_family == ip[j].sin_family) {
			ip_addr m;
			memset(&m, 0xEE, sizeof m);
			ksocket_ipaddr_and(&ip[i], &ip[j], &m);
			ip_addr m2 = ip[i] & ip[j];
			const uint8_t *x = ip[i].addr8, *y = ip[j].addr8;
			for (int b = 0; b < (ip[i].sin_family == PF_INET ? 4 : 16); b++) MON_CHECK(m.addr8[b] == (x[b] & y[b]) && m2.addr8[b] == (x[b] & y[b]), "addr.and", "masked byte %d is wrong", b);
			MON_CHECK(m.sin_family == ip[i].sin_family && m == m2, "addr.and_family", "masked family");
			mon::count("addr.masks");
		}
	}
	mon::cover(mon::hash(a[0].v4.sin_addr.s_addr, a[1].v4.sin_addr.s_addr));
}
// calls that fail on demand (once)
static int fail_listen = 0, fail_poll = 0;
extern "C" int __real_listen(int, int);
extern "C" int __wrap_listen(int fd, int n) { if (fail_listen) { fail_listen--; errno = EADDRINUSE; return -1; } return __real_listen(fd, n); }
extern "C" int __real_poll(struct pollfd*, nfds_t, int);
extern "C" int __wrap_poll(struct pollfd* p, nfds_t n, int t) { if (fail_poll) { fail_poll--; return 0; } return __real_poll(p, n, t); }
extern "C" int __real___poll_chk(struct pollfd*, nfds_t, int, size_t);
extern "C" int __wrap___poll_chk(struct pollfd* p, nfds_t n, int t, size_t l) { if (fail_poll) { fail_poll--; return 0; } return __real___poll_chk(p, n, t, l); }
extern "C" int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
extern "C" int __wrap_select(int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* t) { if (fail_poll) { fail_poll--; return 0; } return __real_select(n, a, b, c, t); }
// nothing but an error comes back, and nothing is left behind (descriptors are counted by the caller)
static void failures(Rng& r, int ci, const char* tmp) {
	int fam = r.chance(1, 4) ? PF_INET6 : PF_INET;
	sockaddr_i a, b;
	if (!ksocket_getaddr(fam == PF_INET ? kx::loop4() : "::1", 0, fam, AI_NUMERICHOST, &a)) mon::harness_error("loopback address");
	switch (r.below(6)) {
	case 0: {
		fail_listen = 1;
		SOCKET l = ksocket_listen(&a, r.below(2) ? KSOCKET_REUSEPORT : 0);
		MON_CHECK(!ksocket_opened(l), "socket.listen_fails", "a socket that cannot listen was given");
		if (ksocket_opened(l)) ksocket_close(l);
		MON_CHECK(fail_listen == 0, "socket.listen_fails", "it does not listen");
		fail_listen = 0;
		break; }
	case 1: {                                            // never writable
		SOCKET l = ksocket_listen(&a, 0);
		socklen_t n = sizeof a;
		getsockname(l, (sockaddr*)&a, &n);
		fail_poll = 1;
		SOCKET c = ksocket_connect(&a, NULL, 1);
		MON_CHECK(!ksocket_opened(c), "socket.connect_timeout", "a connection that timed out was given");
		if (ksocket_opened(c)) ksocket_close(c);
		fail_poll = 0;
		ksocket_close(l);
		break; }
	case 2: {                                            // the local address is taken
		SOCKET l = ksocket_listen(&a, 0), t = socket(fam, SOCK_STREAM | SOCK_CLOEXEC, 0);
		socklen_t n = sizeof a;
		getsockname(l, (sockaddr*)&a, &n);
		ksocket_getaddr(fam == PF_INET ? kx::loop4() : "::1", 0, fam, AI_NUMERICHOST, &b);
		n = fam == PF_INET ? sizeof b.v4 : sizeof b.v6;
		if (bind(t, (sockaddr*)&b, n) || listen(t, 1)) mon::harness_error("bind: %s", strerror(errno));
		n = sizeof b;
		getsockname(t, (sockaddr*)&b, &n);
		SOCKET c = r.chance(1, 2) ? ksocket_connect(&a, &b, 0) : ksocket_half_connect(&a, &b, 0);
		MON_CHECK(!ksocket_opened(c), "socket.bind_taken", "connected from a local address that is taken");
		if (ksocket_opened(c)) ksocket_close(c);
		close(t);
		ksocket_close(l);
		break; }
	case 3: {                                            // a file is not a stale socket
		char path[200], back[16] = "";
		snprintf(path, sizeof path, "%s/file%d", tmp, ci);
		FILE* f = fopen(path, "w");
		fputs("precious", f);
		fclose(f);
		struct sockaddr_un ua;
		ksocket_unix_addr(path, &ua);
		SOCKET l = ksocket_listen((sockaddr_i*)&ua, 0);
		MON_CHECK(!ksocket_opened(l), "socket.unix_file", "a socket listens where a file lies");
		if (ksocket_opened(l)) ksocket_close(l);
		f = fopen(path, "r");
		MON_CHECK(f && fgets(back, sizeof back, f) && !strcmp(back, "precious"), "socket.unix_file", "a file was replaced by a listening socket");
		if (f) fclose(f);
		unlink(path);
		break; }
	case 5: {                                            // as long as an address can be, and longer
		struct { struct sockaddr_un a; char after[8]; } u;
		memset(&u, 0x55, sizeof u);
		std::string p = std::string(tmp) + "/";
		p.resize(107 + r.below(40), 'p');
		int rc = ksocket_unix_addr(p.c_str(), &u.a);
		MON_CHECK((rc == 0) == (p.size() == 107), "socket.unix_long", "a path of %zu bytes gave %d", p.size(), rc);
		if (rc == 0) MON_CHECK(u.a.sun_family == AF_UNIX && p == ksocket_unix_path(&u.a), "socket.unix_path", "unix path differs");
		MON_CHECK(u.after[0] == 0x55, "socket.unix_path", "written beyond the address");
		break; }
	case 4: {                                            // an address of another machine
		memset(&b, 0, sizeof b);
		b.v4.sin_family = AF_INET;
		inet_pton(AF_INET, "203.0.113.7", &b.v4.sin_addr);
		SOCKET l = ksocket_listen(&b, 0);
		MON_CHECK(!ksocket_opened(l), "socket.foreign", "a socket listens on an address of another machine");
		if (ksocket_opened(l)) ksocket_close(l);
		break; }
	}
	mon::count("socket.failures");
}
static int sockopt(int fd, int l, int o) { int v = -1; socklen_t n = sizeof v; if (getsockopt(fd, l, o, &v, &n)) return -1; return v; }
static bool nonblock(int fd) { return fcntl(fd, F_GETFL) & O_NONBLOCK; }
static bool cloexec(int fd) { return fcntl(fd, F_GETFD) & FD_CLOEXEC; }
static void sockets(Rng& r, int ci, const char* tmp) {
	int fds0 = wrap::open_fds();
	int kind = r.below(8);
	if (kind > 5) failures(r, ci, tmp);
	else if (kind == 0) { // udp
		int flag = (r.chance(1, 2) ? KSOCKET_BLOCK : 0) | (r.chance(1, 2) ? KSOCKET_REUSEPORT : 0) | (r.chance(1, 2) ? KSOCKET_ONLY_IPV6 : 0);
		int fam = r.chance(1, 2) ? PF_INET : PF_INET6;
		SOCKET s = ksocket_new_udp(fam, flag);
		if (!ksocket_opened(s)) mon::harness_error("udp socket");
		MON_CHECK(nonblock(s) == !(flag & KSOCKET_BLOCK), "socket.block", "udp socket blocking mode");
		MON_CHECK(ksocket_is_block(s) == !!(flag & KSOCKET_BLOCK), "socket.is_block", "a %sblocking socket is reported as %sblocking", flag & KSOCKET_BLOCK ? "" : "non-", ksocket_is_block(s) ? "" : "non-");
		MON_CHECK(cloexec(s), "socket.cloexec", "udp socket survives exec");
		MON_CHECK((sockopt(s, SOL_SOCKET, SO_REUSEPORT) == 1) == !!(flag & KSOCKET_REUSEPORT), "socket.reuseport", "udp reuse-port");
		if (fam == PF_INET6) MON_CHECK((sockopt(s, IPPROTO_IPV6, IPV6_V6ONLY) == 1) == !!(flag & KSOCKET_ONLY_IPV6), "socket.v6only", "udp v6only");
		ksocket_no_block(s);
		MON_CHECK(nonblock(s), "socket.no_block", "still blocking");
		ksocket_block(s);
		MON_CHECK(!nonblock(s) && ksocket_is_block(s), "socket.set_block", "still non-blocking");
		ksocket_set_time(s, 3, 4);
		struct timeval tv;
		socklen_t n = sizeof tv;
		getsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &tv, &n);
		MON_CHECK(tv.tv_sec == 3, "socket.set_time", "send time-out %ld", (long)tv.tv_sec);
		n = sizeof tv;
		getsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, &n);
		MON_CHECK(tv.tv_sec == 4, "socket.set_time", "receive time-out %ld", (long)tv.tv_sec);
		ksocket_close(s);
		mon::count("socket.udp");
	} else if (kind < 5) { // listen, connect, accept
		int fam = r.chance(1, 3) ? PF_INET6 : PF_INET;
		bool un = r.chance(1, 4), tfo = !un && r.chance(1, 3);
		char path[200];
		snprintf(path, sizeof path, "%s/s%d", tmp, ci);
		int flag = (r.chance(1, 2) ? KSOCKET_BLOCK : 0) | (r.chance(1, 2) && !un ? KSOCKET_REUSEPORT : 0) | (r.chance(1, 2) ? KSOCKET_ONLY_IPV6 : 0) | (tfo ? KSOCKET_FASTOPEN : 0);
		struct sockaddr_un ua;
		sockaddr_i a;
		SOCKET l;
		sockaddr_storage la;
		socklen_t ln = sizeof la;
		if (un) {
			memset(&ua, 0x55, sizeof ua);
			ksocket_unix_addr(path, &ua);
			MON_CHECK(ua.sun_family == AF_UNIX && !strcmp(ksocket_unix_path(&ua), path), "socket.unix_path", "unix path differs");
			if (r.chance(1, 2)) { // a stale socket is replaced
				SOCKET o = ksocket_listen((sockaddr_i*)&ua, 0);
				if (!ksocket_opened(o)) mon::harness_error("unix listen %s: %s", path, strerror(errno));
				ksocket_close(o);
				mon::count("socket.stale_unix");
			}
			l = ksocket_listen((sockaddr_i*)&ua, flag);
			MON_CHECK(ksocket_opened(l), "socket.unix_listen", "listening on %s failed: %s", path, strerror(errno));
		} else {
			if (!ksocket_getaddr(fam == PF_INET ? kx::loop4() : "::1", 0, fam, AI_NUMERICHOST, &a)) mon::harness_error("loopback address");
			l = ksocket_listen(&a, flag);
			if (!ksocket_opened(l)) mon::harness_error("listen: %s", strerror(errno));
		}
		if (!ksocket_opened(l)) return;
		getsockname(l, (sockaddr*)&la, &ln);
		if (!un) memcpy(&a, &la, sizeof a);
		MON_CHECK(nonblock(l) == !(flag & KSOCKET_BLOCK) && cloexec(l), "socket.listen_mode", "mode of a listening socket");
		if (!un) MON_CHECK((sockopt(l, SOL_SOCKET, SO_REUSEPORT) == 1) == !!(flag & KSOCKET_REUSEPORT), "socket.listen_reuseport", "reuse-port of a listening socket");
		if (!un) MON_CHECK(sockopt(l, SOL_SOCKET, SO_REUSEADDR) == 1, "socket.listen_reuseaddr", "address of a listening socket cannot be reused");
		if (!un) MON_CHECK((sockopt(l, IPPROTO_TCP, TCP_FASTOPEN) > 0) == tfo, "socket.listen_fastopen", "fast open of a listening socket");
		if (fam == PF_INET6 && !un && (flag & KSOCKET_ONLY_IPV6)) MON_CHECK(sockopt(l, IPPROTO_IPV6, IPV6_V6ONLY) == 1, "socket.listen_v6only", "v6only of a listening socket");
		sockaddr_i bindto;
		bool bnd = !un && r.chance(1, 2);
		if (bnd) ksocket_getaddr(fam == PF_INET ? "127.0.0.1" : "::1", 0, fam, AI_NUMERICHOST, &bindto);
		bool half = r.chance(1, 2);
		sockaddr_i* to = un ? (sockaddr_i*)&ua : &a;
		SOCKET c = half ? ksocket_half_connect(to, bnd ? &bindto : NULL, 0) : ksocket_connect(to, bnd ? &bindto : NULL, r.below(2));
		MON_CHECK(ksocket_opened(c), "socket.connect", "connecting to a listening socket failed: %s", strerror(errno));
		if (ksocket_opened(c)) {
			MON_CHECK(nonblock(c) == half && cloexec(c), "socket.connect_mode", "mode of a connecting socket");
			struct pollfd p = { l, POLLIN, 0 };
			poll(&p, 1, 5000);
			bool nb = r.chance(1, 2);
			sockaddr_i peer;
			memset(&peer, 0xEE, sizeof peer);
			SOCKET s = ksocket_accept(l, &peer, nb);
			MON_CHECK(ksocket_opened(s), "socket.accept", "accept failed: %s", strerror(errno));
			if (ksocket_opened(s)) {
				MON_CHECK(nonblock(s) == nb && cloexec(s), "socket.accept_mode", "mode of an accepted socket");
				if (!un) {
					sockaddr_storage cn;
					socklen_t n = sizeof cn;
					getsockname(c, (sockaddr*)&cn, &n);
					sockaddr_i cc;
					memcpy(&cc, &cn, sizeof cc);
					MON_CHECK(same_ip(cc, peer) && ksocket_addr_port(&cc) == ksocket_addr_port(&peer), "socket.accept_peer", "accepted peer address differs");
					ksocket_no_delay(s, true);
					MON_CHECK(sockopt(s, IPPROTO_TCP, TCP_NODELAY) == 1, "socket.no_delay", "no-delay not set");
					ksocket_delay(s);
					MON_CHECK(sockopt(s, IPPROTO_TCP, TCP_CORK) == 1, "socket.delay", "delay not set");
					ksocket_no_delay(s, false);
					MON_CHECK(sockopt(s, IPPROTO_TCP, TCP_CORK) == 0, "socket.delay_off", "delay not cleared");
				}
				ksocket_close(s);
			}
			ksocket_close(c);
			mon::count("socket.connected");
		}
		// refusal: the port is closed afterwards
		ksocket_close(l);
		if (un) unlink(path);
		SOCKET d = fam == PF_INET6 && !un ? INVALID_SOCKET : ksocket_connect(to, NULL, 0); // ::1 is shared with other processes
		MON_CHECK(!ksocket_opened(d), "socket.refused", "connected to nobody");
		if (ksocket_opened(d)) ksocket_close(d);
		// bind conflict is an error without a leak
		if (!un && !(flag & KSOCKET_REUSEPORT)) {
			SOCKET l1 = ksocket_listen(&a, 0);
			if (ksocket_opened(l1)) {
				SOCKET l2 = ksocket_listen(&a, 0);
				MON_CHECK(!ksocket_opened(l2), "socket.bind_conflict", "one address was bound twice");
				if (ksocket_opened(l2)) ksocket_close(l2);
				ksocket_close(l1);
				mon::count("socket.conflicts");
			}
		}
	} else { // waiting for events
		int sv[2];
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) mon::harness_error("socketpair");
		MON_CHECK(wait_socket_event(sv[0], true, 1), "socket.wait_write", "an idle socket is not writable");
		if (write(sv[1], "x", 1) != 1) mon::harness_error("write");
		MON_CHECK(wait_socket_event(sv[0], false, 1), "socket.wait_read", "a socket with data is not readable");
		MON_CHECK(wait_socket_event(sv[0], false, 0), "socket.wait_zero", "no time-out given");
		if (r.chance(1, 2)) {    // a process with many descriptors
			int want = 1000 + r.below(5000), hi = fcntl(sv[0], F_DUPFD_CLOEXEC, want);
			if (hi >= 0) {           // (the system allows that many)
			MON_CHECK(wait_socket_event(hi, false, 1), "socket.wait_high", "descriptor %d with data is not readable", hi);
			MON_CHECK(wait_socket_event(hi, true, 1), "socket.wait_high", "descriptor %d is not writable", hi);
			close(hi);
			mon::count("socket.high_waits");
			}
		}
		close(sv[0]);
		close(sv[1]);
		mon::count("socket.waits");
	}
	MON_CHECK(wrap::open_fds() == fds0, "socket.leak", "%d descriptors left open", wrap::open_fds() - fds0);
	mon::cover(mon::hash(ci, kind));
}
static void one(int ci, const char* tmp) {
	Rng r = kx::rng_for(28, ci);
	mon::set_case("address case %d", ci);
	int k = r.below(10);
	if (k < 4) for (int i = 0; i < 20 && !mon::violated(); i++) texts(r);
	else if (k < 7) for (int i = 0; i < 10 && !mon::violated(); i++) order(r);
	else sockets(r, ci, tmp);
	mon::eval();
}
}

int main(int argc, char** argv) {
	mon::init(argc, argv, "data");
	mode = mon::arg("mode", "rbtree");
	mon::watchdog(60);
	wrap::track_allocs(true);
	kgl_pagesize = 4096;
	for (int i = 0; i < mon::cases && !mon::violated(); i++) {
		if (mode == "rbtree") rbt::one(i);
		else if (mode == "krw") krw::one(i);
		else if (mode == "ks") ks::one(i);
		else if (mode == "pool") pool::one(i);
		else if (mode == "string") str::one(i);
		else if (mode == "addr") addr::one(i, mon::arg("tmp", "/tmp"));
		else mon::harness_error("mode %s", mode.c_str());
		mon::progress();
	}
	mon::finish();
}
