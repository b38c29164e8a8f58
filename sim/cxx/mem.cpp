// The C++ front end is compiled as for a thread sanitizer; what it calls at each access to memory is this.
// Every access that may be to shared memory is a scheduling point. (Not instrumented itself.)
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
void advsim_mem_point(const void* p);

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_##n(void* p) { advsim_mem_point(p); }
#define ACCS(n) ACC(n##1) ACC(n##2) ACC(n##4) ACC(n##8) ACC(n##16)
ACCS(read) ACCS(write) ACCS(volatile_read) ACCS(volatile_write)
#define ACCU(n) ACC(unaligned_##n##2) ACC(unaligned_##n##4) ACC(unaligned_##n##8) ACC(unaligned_##n##16)
ACCU(read) ACCU(write) ACCU(volatile_read) ACCU(volatile_write)
ACC(vptr_read)
void __tsan_vptr_update(void** p, void*) { advsim_mem_point(p); }
void __tsan_read_range(void* p, unsigned long) { advsim_mem_point(p); }
void __tsan_write_range(void* p, unsigned long) { advsim_mem_point(p); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { advsim_mem_point(s); advsim_mem_point(d); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { advsim_mem_point(s); advsim_mem_point(d); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int v, std::size_t n) { advsim_mem_point(d); return std::memset(d, v, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, t) \
	t __tsan_atomic##b##_load(const volatile t* a, int) { advsim_mem_point((const void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##b##_store(volatile t* a, t v, int) { advsim_mem_point((const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_exchange(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int) { advsim_mem_point((const void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* c, t v, int, int) { advsim_mem_point((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* c, t v, int, int) { advsim_mem_point((const void*)a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t c, t v, int, int) { advsim_mem_point((const void*)a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
