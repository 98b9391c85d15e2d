/* Linked into every monitored build: pins the seed that msolve takes from time(), so that one run of
 * one input is reproducible and seeds can be swept. With VP_TIME_TICK=n the clock advances by one
 * second at every n-th call, as a real clock would between attempts. */
#include <time.h>
#include <stdlib.h>
time_t time(time_t *t)
{
    static long calls;
    const char *s = getenv("VP_TIME"), *k = getenv("VP_TIME_TICK");
    time_t v;
    if (s) {
        v = (time_t)strtoll(s, 0, 10);
        if (k && atol(k) > 0) v += __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED) / atol(k);
    } else {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if (t) *t = v;
    return v;
}
