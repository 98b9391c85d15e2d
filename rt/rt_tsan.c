/* Linked (uninstrumented) into the tsan variant.
 *
 * The pivot tables of the linear algebra are shared arrays of row pointers. A thread publishes a
 * row with an atomic compare-and-swap; the others look it up with a plain 8-byte load that is atomic
 * on the machines msolve runs on. That publication is the intended one (property C14 excludes it),
 * but to ThreadSanitizer it is a race and, worse, everything reached through the pointer is unordered.
 * Here a location that has been the target of a compare-and-swap counts as an atomic variable: its
 * plain 8-byte reads become acquire loads, so what is reported beyond it is not the publication itself. */
#include <stdint.h>
#include <stdlib.h>

#define LG 20
static uintptr_t tab[1u << LG];

static unsigned long n_pub, n_read;

static int known(uintptr_t a)
{
    uint32_t h = (uint32_t)((a >> 3) * 0x9E3779B1u) >> (32 - LG);
    for (int k = 0; k < 64; ++k) {
        uintptr_t x = __atomic_load_n(&tab[(h + k) & ((1u << LG) - 1)], __ATOMIC_RELAXED);
        if (x == a) return 1;
        if (x == 0) return 0;
    }
    return 0;
}
static void add(uintptr_t a)
{
    uint32_t h = (uint32_t)((a >> 3) * 0x9E3779B1u) >> (32 - LG);
    for (int k = 0; k < 64; ++k) {
        uintptr_t *p = &tab[(h + k) & ((1u << LG) - 1)], x = 0;
        if (__atomic_load_n(p, __ATOMIC_RELAXED) == a) return;
        if (__atomic_compare_exchange_n(p, &x, a, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { ++n_pub; return; }
        if (x == a) return;
    }
}
void __tsan_acquire(void *);
void __tsan_release(void *);
void __real___tsan_read8(void *);
int __real___tsan_atomic64_compare_exchange_strong(volatile long *, long *, long, int, int);
long __real___tsan_atomic64_compare_exchange_val(volatile long *, long, long, int, int);

void __wrap___tsan_read8(void *p)
{
    if (known((uintptr_t)p)) { __tsan_acquire(p); return; }
    __real___tsan_read8(p);
}
int __wrap___tsan_atomic64_compare_exchange_strong(volatile long *a, long *c, long v, int mo, int fmo)
{
    add((uintptr_t)a);
    return __real___tsan_atomic64_compare_exchange_strong(a, c, v, mo, fmo);
}
long __wrap___tsan_atomic64_compare_exchange_val(volatile long *a, long c, long v, int mo, int fmo)
{
    add((uintptr_t)a);
    return __real___tsan_atomic64_compare_exchange_val(a, c, v, mo, fmo);
}
