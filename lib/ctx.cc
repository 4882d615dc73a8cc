// Tells the sanitizers about fiber switches. jump_fcontext/make_fcontext are wrapped at link
// time, so the library's sources stay as they are. Compiled without sanitizers.
#include "mon.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <pthread.h>
#include <unordered_map>
#include <map>
#include <vector>

typedef struct { void* fctx; void* data; } transfer_t;
extern "C" {
transfer_t __real_jump_fcontext(void* to, void* vp);
void* __real_make_fcontext(void* sp, size_t size, void (*fn)(transfer_t));
#ifdef MON_TSAN
void* __tsan_get_current_fiber(void);
void* __tsan_create_fiber(unsigned flags);
void __tsan_destroy_fiber(void* fiber);
void __tsan_switch_to_fiber(void* fiber, unsigned flags);
#endif
#ifdef MON_ASAN
void __sanitizer_start_switch_fiber(void** fake_stack_save, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake_stack_save, const void** bottom_old, size_t* size_old);
#endif
}
namespace {
struct Ctx {
	void* tsan = NULL;
	const void* bottom = NULL;
	size_t size = 0;
	void (*fn)(transfer_t) = NULL;
	char* sp = NULL;         // top of the stack block, NULL for a thread's own stack
	bool started = false;
};
SpinLock lk;
std::unordered_map<void*, Ctx*>* by_fctx;      // suspended contexts by their saved stack pointer
std::map<char*, Ctx*>* by_sp;                  // live fiber contexts by stack top
__thread Ctx* cur;                              // running context of this thread
__thread Ctx* prev;                             // context that is switching away
Ctx* self() {
	if (!cur) {
		cur = new Ctx();
#ifdef MON_TSAN
		cur->tsan = __tsan_get_current_fiber();
#endif
#ifdef MON_ASAN
		pthread_attr_t a;
		void* addr = NULL;
		size_t size = 0;
		if (pthread_getattr_np(pthread_self(), &a) == 0) {
			pthread_attr_getstack(&a, &addr, &size);
			pthread_attr_destroy(&a);
		}
		cur->bottom = addr;
		cur->size = size;
#endif
	}
	return cur;
}
void drop(Ctx* c) {
#ifdef MON_TSAN
	if (c->tsan) __tsan_destroy_fiber(c->tsan);
#endif
	delete c;
}
void forget_locked(Ctx* c) {
	for (auto it = by_fctx->begin(); it != by_fctx->end();)
		if (it->second == c) it = by_fctx->erase(it); else ++it;
}
void ensure() {
	if (!by_fctx) { by_fctx = new std::unordered_map<void*, Ctx*>(); by_sp = new std::map<char*, Ctx*>(); }
}
void tramp(transfer_t rt) {
	Ctx* me = cur;
#ifdef MON_ASAN
	__sanitizer_finish_switch_fiber(NULL, NULL, NULL);
#endif
	lk.lock();
	(*by_fctx)[rt.fctx] = prev;
	lk.unlock();
	me->fn(rt);
	abort();
}
}
namespace wrap {
void ctx_on_free(void* p, size_t n) {
	std::vector<Ctx*> dead;
	lk.lock();
	if (by_sp) {
		auto it = by_sp->upper_bound((char*)p);
		while (it != by_sp->end() && it->first <= (char*)p + n) {
			forget_locked(it->second);
			dead.push_back(it->second);
			it = by_sp->erase(it);
		}
	}
	lk.unlock();
	for (Ctx* c : dead) drop(c);
}
}
// where the suspended fibers are (for a report of a hang): return addresses relative to the program
extern "C" char __executable_start;
extern "C" void mon_dump_fibers() {
	lk.lock();
	if (by_fctx) for (auto& e : *by_fctx) {
		Ctx* c = e.second;
		if (!c->sp || !c->size) continue;
		char* lo = c->sp - c->size;
		uintptr_t bp = ((uintptr_t*)e.first)[7];       // (x86-64 frame of jump_fcontext)
		char line[400];
		int n = 0;
		for (int i = 0; i < 24 && bp >= (uintptr_t)lo && bp < (uintptr_t)c->sp - 16; i++) {
			n += snprintf(line + n, sizeof line - n, " 0x%lx", (unsigned long)(((uintptr_t*)bp)[1] - (uintptr_t)&__executable_start));
			if (n > 380) break;
			uintptr_t next = ((uintptr_t*)bp)[0];
			if (next <= bp) break;
			bp = next;
		}
		fprintf(stderr, "fiber at%s\n", line);
	}
	lk.unlock();
}
extern "C" void* __wrap_make_fcontext(void* sp, size_t size, void (*fn)(transfer_t)) {
	Ctx* c = new Ctx();
	c->sp = (char*)sp;
	c->bottom = (char*)sp - size;
	c->size = size;
	c->fn = fn;
#ifdef MON_TSAN
	c->tsan = __tsan_create_fiber(0);
#endif
	void* f = __real_make_fcontext(sp, size, tramp);
	Ctx* old = NULL;
	lk.lock();
	ensure();
	auto it = by_sp->find((char*)sp);
	if (it != by_sp->end()) { old = it->second; forget_locked(old); by_sp->erase(it); }
	(*by_sp)[(char*)sp] = c;
	(*by_fctx)[f] = c;
	lk.unlock();
	if (old) drop(old);
	return f;
}
extern "C" transfer_t __wrap_jump_fcontext(void* to, void* vp) {
	Ctx* me = self();
	lk.lock();
	ensure();
	auto it = by_fctx->find(to);
	Ctx* target = it == by_fctx->end() ? NULL : it->second;
	if (target) by_fctx->erase(it);
	lk.unlock();
	if (!target) {
		mon::violation("switch:stale-context", "switch to a context that is not suspended (%s)", "already running, finished or never created");
		mon::finish();
	}
	prev = me;
	cur = target;
#ifdef MON_ASAN
	void* fake = NULL;
	__sanitizer_start_switch_fiber(&fake, target->bottom, target->size);
#endif
#ifdef MON_TSAN
	__tsan_switch_to_fiber(target->tsan, 0);
#endif
	transfer_t rt = __real_jump_fcontext(to, vp);
#ifdef MON_ASAN
	__sanitizer_finish_switch_fiber(fake, NULL, NULL);
#endif
	lk.lock();
	(*by_fctx)[rt.fctx] = prev;
	lk.unlock();
	return rt;
}
