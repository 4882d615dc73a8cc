// Accesses to volatile objects are the library's way of saying "read loosely on purpose";
// they are treated like relaxed atomics: no report, no ordering.
extern "C" {
#define V(n) void __tsan_volatile_read##n(void*) {} void __tsan_volatile_write##n(void*) {} \
	void __tsan_unaligned_volatile_read##n(void*) {} void __tsan_unaligned_volatile_write##n(void*) {}
V(1) V(2) V(4) V(8) V(16)
}
#ifndef MON_KEEP_CTX_STUB
namespace wrap { __attribute__((weak)) void ctx_on_free(void*, unsigned long) {} }
#endif
