// The run time of g++ -fsanitize=thread, replaced: every access to memory is a point where the thread may lose the processor.
// The schedules this gives are ones the system could choose as well.
#include <atomic>
#include <cstdint>
#include <cstring>
#include <sched.h>
#include <time.h>

int vp_rate = 0;    // how often a thread waits, in 1/1000 of the atomic operations (plain accesses: a tenth of that)
int vp_long = 50;   // longest wait in microseconds

static std::atomic<std::uint64_t> g_seed{88172645463325252ull};
static thread_local std::uint64_t t_s;
static std::uint64_t              rnd()
{
    if (!t_s) t_s = g_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1;
    t_s ^= t_s << 13;
    t_s ^= t_s >> 7;
    t_s ^= t_s << 17;
    return t_s;
}
static void point(int weight)
{
    if (!vp_rate) return;
    std::uint64_t const r = rnd();
    if ((int)(r % 10000) >= vp_rate * weight) return;
    if ((r >> 20) & 1) {
        sched_yield();
    } else {
        timespec t{0, (long)((r >> 24) % (unsigned)vp_long) * 1000};
        nanosleep(&t, nullptr);
    }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                        \
    void __tsan_read##n(void*) { point(1); }         \
    void __tsan_write##n(void*) { point(1); }        \
    void __tsan_unaligned_read##n(void*) { point(1); }  \
    void __tsan_unaligned_write##n(void*) { point(1); } \
    void __tsan_volatile_read##n(void*) { point(1); }   \
    void __tsan_volatile_write##n(void*) { point(1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { point(1); }
void __tsan_write_range(void*, unsigned long) { point(1); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define AT(n, T)                                                                                                                              \
    T __tsan_atomic##n##_load(T const volatile* a, int) { point(10); return __atomic_load_n(a, 5); }                                            \
    void __tsan_atomic##n##_store(T volatile* a, T v, int) { point(10); __atomic_store_n(a, v, 5); point(10); }                                 \
    T __tsan_atomic##n##_exchange(T volatile* a, T v, int) { point(10); T r = __atomic_exchange_n(a, v, 5); point(10); return r; }              \
    T __tsan_atomic##n##_fetch_add(T volatile* a, T v, int) { point(10); T r = __atomic_fetch_add(a, v, 5); point(10); return r; }              \
    T __tsan_atomic##n##_fetch_sub(T volatile* a, T v, int) { point(10); T r = __atomic_fetch_sub(a, v, 5); point(10); return r; }              \
    T __tsan_atomic##n##_fetch_and(T volatile* a, T v, int) { return __atomic_fetch_and(a, v, 5); }                                             \
    T __tsan_atomic##n##_fetch_or(T volatile* a, T v, int) { return __atomic_fetch_or(a, v, 5); }                                               \
    T __tsan_atomic##n##_fetch_xor(T volatile* a, T v, int) { return __atomic_fetch_xor(a, v, 5); }                                             \
    T __tsan_atomic##n##_fetch_nand(T volatile* a, T v, int) { return __atomic_fetch_nand(a, v, 5); }                                           \
    int __tsan_atomic##n##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { point(10); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { point(10); return __atomic_compare_exchange_n(a, c, v, true, 5, 5); }    \
    T __tsan_atomic##n##_compare_exchange_val(T volatile* a, T c, T v, int, int) { point(10); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { __atomic_signal_fence(5); }
}
