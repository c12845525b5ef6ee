/* The server is compiled with LLVM's ThreadSanitizer pass, which (as we don't mark any function as
 * sanitized) turns only its atomic operations into calls. This is not TSan's runtime: it does what
 * was asked for, and gives the shim, if there's one, the opportunity to delay the thread just before a
 * Mutex is acquired, or just after it has been released. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
static void (*point)(int);
__attribute__((constructor)) static void init(void) { point = (void (*)(int))dlsym(RTLD_DEFAULT, "vp_atomic_point"); }
#define P(c, k) do { if ((c) && point) point(k); } while (0)
#define OPS(N, T)                                                                                                      \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { return __atomic_load_n(a, 5); }                           \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { __atomic_store_n(a, v, 5); }                           \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) {                                                        \
        T r = __atomic_exchange_n(a, v, 5);                                                                            \
        P(N == 32, 2);                                                                                                 \
        return r;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { return __atomic_fetch_add(a, v, 5); }                 \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { return __atomic_fetch_sub(a, v, 5); }                 \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { return __atomic_fetch_and(a, v, 5); }                 \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { return __atomic_fetch_or(a, v, 5); }                   \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { return __atomic_fetch_xor(a, v, 5); }                 \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { return __atomic_fetch_nand(a, v, 5); }               \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                              \
        P(N == 32, 1);                                                                                                 \
        __atomic_compare_exchange_n(a, &c, v, 0, 5, 5);                                                                \
        return c;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                        \
        P(N == 32, 1);                                                                                                 \
        return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                                          \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                          \
        P(N == 32, 1);                                                                                                 \
        return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                                          \
    }
OPS(8, uint8_t)
OPS(16, uint16_t)
OPS(32, uint32_t)
OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
