/* malloc/realloc of the program under test (not of the libraries): with VP_FILL=<byte> the first
 * and last 64 KB of every fresh block carry that byte, and freed blocks are overwritten, so that
 * reading memory that was never written or was released changes the answer. */
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <stdint.h>
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static int fill = -2;
static inline int byte(void)
{
    if (fill == -2) { const char *s = getenv("VP_FILL"); fill = s ? atoi(s) & 255 : -1; }
    return fill;
}
#define LIM 65536
static void put(char *p, size_t n, int b)
{
    if (n <= 2 * LIM) memset(p, b, n);
    else { memset(p, b, LIM); memset(p + n - LIM, b, LIM); }
}
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    int b = byte();
    if (p && b >= 0) put(p, n, b);
    return p;
}
void *__wrap_realloc(void *o, size_t n)
{
    int b = byte();
    if (b < 0) return __real_realloc(o, n);
    size_t old = o ? malloc_usable_size(o) : 0;
    char *p = __real_realloc(o, n);
    if (p && n > old) put(p + old, n - old, b);
    return p;
}
void __wrap_free(void *p)
{
    int b = byte();
    if (p && b >= 0) { size_t n = malloc_usable_size(p); if (n > LIM) n = LIM; memset(p, b ^ 0x55, n); }
    __real_free(p);
}
