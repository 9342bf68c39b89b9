// The callbacks that -fsanitize=thread makes the compiler insert, given a meaning of our own:
// counting accesses. Not itself instrumented.
#include "trace.h"
#include <string.h>

extern "C" {
trace_range_t trace_range[TRACE_RANGES];
volatile int trace_on;
uint64_t trace_share[2*TRACE_RANGES + 1][TRACE_THREADS];
int trace_nthreads;
static int epoch;
static thread_local int my_id = -1, my_epoch = -1;

void trace_reset(void) {
	memset(trace_share, 0, sizeof trace_share);
	__atomic_store_n(&trace_nthreads, 0, __ATOMIC_SEQ_CST);
	__atomic_add_fetch(&epoch, 1, __ATOMIC_SEQ_CST);
}

static inline void note(const void* p, size_t n, bool write) {
	if(!trace_on) return;
	uintptr_t a = (uintptr_t) p, b = a + n;
	if(my_epoch != epoch) { my_epoch = epoch; my_id = __atomic_fetch_add(&trace_nthreads, 1, __ATOMIC_RELAXED) % TRACE_THREADS; }
	for(int r = 0; r < TRACE_RANGES; r++) {
		trace_range_t* t = &trace_range[r];
		if(b <= t->lo || a >= t->hi) continue;
		uintptr_t lo = a < t->lo ? t->lo : a, hi = b > t->hi ? t->hi : b;
		uint16_t* c = write ? t->wr : t->rd;
		__atomic_add_fetch(&trace_share[r + (write ? TRACE_RANGES : 0)][my_id], (hi - lo + 3) / 4, __ATOMIC_RELAXED);
		for(uintptr_t i = (lo - t->lo) / 4; i <= (hi - 1 - t->lo) / 4; i++) __atomic_add_fetch(&c[i], 1, __ATOMIC_RELAXED);
		return;
	}
	__atomic_add_fetch(&trace_share[2*TRACE_RANGES][my_id], (n + 3) / 4, __ATOMIC_RELAXED);
}

#define RW(N) \
	void __tsan_read##N(void* p) { note(p, N, false); } \
	void __tsan_write##N(void* p) { note(p, N, true); } \
	void __tsan_unaligned_read##N(void* p) { note(p, N, false); } \
	void __tsan_unaligned_write##N(void* p) { note(p, N, true); } \
	void __tsan_volatile_read##N(void* p) { note(p, N, false); } \
	void __tsan_volatile_write##N(void* p) { note(p, N, true); } \
	void __tsan_read##N##_pc(void* p, void*) { note(p, N, false); } \
	void __tsan_write##N##_pc(void* p, void*) { note(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { note(p, n, false); }
void __tsan_write_range(void* p, size_t n) { note(p, n, true); }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
// atomics the compiler leaves to the runtime
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T* a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##N##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// block moves go to these instead of libc's (the linker is told to wrap them)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { note(s, n, false); note(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { note(s, n, false); note(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { note(d, n, true); return __real_memset(d, c, n); }
}
