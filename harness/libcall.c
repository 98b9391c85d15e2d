/* LINK:libmsolve
 * Calls the exported functions one after another in one process, as a host program (the Julia
 * package) does: job descriptions on stdin, results on fd 3 (path in argv[1]).  The caller's side is watched: input arrays must come
 * back unchanged, every returned block must have come from the caller's allocator and be large
 * enough, releasing must free blocks of that allocator exactly once. */
#include "config.h"
#include "src/neogb/libneogb.h"
#include "src/msolve/msolve.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <gmp.h>

static FILE *out;
static long job;
#define VIOL(...) do { fprintf(out, "VIOL %ld ", job); fprintf(out, __VA_ARGS__); fprintf(out, "\n"); fflush(out); } while (0)

/* the caller's allocator */
typedef struct { char *p; size_t n; } blk;
static blk B[1 << 16]; static long nb; static long n_alloc, n_free;
static void *cmalloc(size_t n)
{
    char *q = malloc(n + 64); /* shifted, so that free() on it is detected */
    if (!q) exit(77);
    memset(q, 0xa5, n + 64);
    if (nb == 1 << 16) exit(78);
    B[nb].p = q + 32; B[nb].n = n; nb++; n_alloc++;
    return q + 32;
}
static long findb(const void *p) { for (long i = 0; i < nb; ++i) if (B[i].p == (char *)p) return i; return -1; }
static void cfree(void *p)
{
    if (!p) return;
    long i = findb(p);
    if (i < 0) { VIOL("a block that is not (or no longer) one of the caller's allocator is released through it"); return; }
    for (int k = 0; k < 32; ++k) if ((unsigned char)B[i].p[-1 - k] != 0xa5 || (unsigned char)B[i].p[B[i].n + k] != 0xa5) { VIOL("write outside of a block of the caller's allocator"); break; }
    free(B[i].p - 32); B[i] = B[--nb]; n_free++;
}
static void owned(const void *p, size_t need, const char *what)
{
    long i = findb(p);
    if (i < 0) { VIOL("%s: returned block does not come from the caller's allocator", what); return; }
    if (B[i].n < need) VIOL("%s: returned block has %lu bytes, the announced sizes need %lu", what, (unsigned long)B[i].n, (unsigned long)need);
}

static long rd(void) { long v; if (scanf("%ld", &v) != 1) exit(79); return v; }
static void *cpy(const void *p, size_t n) { void *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }

typedef struct { int nv, ng; long nt; int32_t *lens, *exps, *cf; mpz_t **q; int32_t *lens0, *exps0, *cf0; mpz_t *q0; mpz_t **q00; int ch0; } sys;
static void rsys(sys *s, int nv, int ch0)
{
    memset(s, 0, sizeof *s);
    s->nv = nv; s->ch0 = ch0; s->ng = rd();
    s->lens = malloc(s->ng * sizeof(int32_t));
    for (int i = 0; i < s->ng; ++i) { s->lens[i] = rd(); s->nt += s->lens[i]; }
    s->exps = malloc(s->nt * nv * sizeof(int32_t));
    for (long i = 0; i < s->nt * nv; ++i) s->exps[i] = rd();
    if (!ch0) { s->cf = malloc(s->nt * sizeof(int32_t)); for (long i = 0; i < s->nt; ++i) s->cf[i] = rd(); s->cf0 = cpy(s->cf, s->nt * 4); }
    else {
        s->q = malloc(2 * s->nt * sizeof(mpz_t *)); s->q0 = malloc(2 * s->nt * sizeof(mpz_t));
        for (long i = 0; i < 2 * s->nt; ++i) { s->q[i] = malloc(sizeof(mpz_t)); mpz_init(*s->q[i]); if (gmp_scanf("%Zd", *s->q[i]) != 1) exit(79); mpz_init_set(s->q0[i], *s->q[i]); }
        s->q00 = cpy(s->q, 2 * s->nt * sizeof(mpz_t *));
    }
    s->lens0 = cpy(s->lens, s->ng * 4); s->exps0 = cpy(s->exps, s->nt * nv * 4);
}
static void unchanged(sys *s, const char *w)
{
    if (memcmp(s->lens, s->lens0, s->ng * 4)) VIOL("%s: the caller's array of lengths was changed", w);
    if (memcmp(s->exps, s->exps0, s->nt * s->nv * 4)) VIOL("%s: the caller's array of exponents was changed", w);
    if (!s->ch0) { if (memcmp(s->cf, s->cf0, s->nt * 4)) VIOL("%s: the caller's array of coefficients was changed", w); }
    else {
        if (memcmp(s->q, s->q00, 2 * s->nt * sizeof(mpz_t *))) { VIOL("%s: the caller's array of coefficients was changed", w); return; }
        for (long i = 0; i < 2 * s->nt; ++i) if (mpz_cmp(*s->q[i], s->q0[i])) { VIOL("%s: a coefficient of the caller was changed", w); break; }
    }
}
static void fsys(sys *s)
{
    if (s->q) { for (long i = 0; i < 2 * s->nt; ++i) { mpz_clear(*s->q[i]); free(s->q[i]); mpz_clear(s->q0[i]); } }
    free(s->lens); free(s->exps); free(s->cf); free(s->q); free(s->lens0); free(s->exps0); free(s->cf0); free(s->q0); free(s->q00);
}

typedef struct { int32_t ld, *len, *exp; void *cf; int64_t nt; } res;
static void report(res *r, int nv, int ch)
{
    long nt = 0;
    if (r->ld < 0) { VIOL("negative number of polynomials returned"); return; }
    owned(r->len, (size_t)r->ld * 4, "lengths");
    for (int i = 0; i < r->ld; ++i) nt += r->len[i];
    if (nt != r->nt) VIOL("the return value %ld is not the number of terms %ld", (long)r->nt, nt);
    owned(r->exp, (size_t)nt * nv * 4, "exponents");
    owned(r->cf, (size_t)nt * (ch ? 4 : sizeof(mpz_t)), "coefficients");
    fprintf(out, "RES %ld %d", job, r->ld);
    for (int i = 0; i < r->ld; ++i) fprintf(out, " %d", r->len[i]);
    fprintf(out, "\nEXP");
    for (long i = 0; i < nt * nv; ++i) fprintf(out, " %d", r->exp[i]);
    fprintf(out, "\nCF");
    for (long i = 0; i < nt; ++i) if (ch) fprintf(out, " %d", ((int32_t *)r->cf)[i]); else gmp_fprintf(out, " %Zd", ((mpz_t *)r->cf)[i]);
    fprintf(out, "\n"); fflush(out);
}
static res keep; static int keep_nv; static long keep_ch; static int kept;
static void drop(res *r, long ch)
{
    long live = nb, own = n_free;
    void *cf = r->cf;
    free_f4_julia_result_data(cfree, &r->len, &r->exp, &r->cf, r->ld, ch);
    if (r->len || r->exp || r->cf) VIOL("released results are still referenced");
    if (ch && (n_free - own != 3 || nb != live - 3)) VIOL("releasing a result gives back %ld blocks instead of 3", n_free - own);
    if (!ch && findb(cf) >= 0) cfree(cf); /* left to the host */
}

int main(int argc, char **argv)
{
    out = fopen(argv[1], "w");
    if (!out) return 80;
    char op[16];
    while (scanf("%15s", op) == 1) {
        job++;
        if (!strcmp(op, "GB")) { /* F4 over a prime field or lifting over Q */
            long ch = rd(); int mo = rd(), el = rd(), nv = rd(), ht = rd(), th = rd(), mp = rd(), rs = rd(), la = rd(), kp = rd();
            sys s; rsys(&s, nv, ch == 0);
            res r; memset(&r, 0xee, sizeof r);
            r.nt = ch ? export_f4(cmalloc, &r.ld, &r.len, &r.exp, &r.cf, s.lens, s.exps, s.cf, ch, mo, el, nv, s.ng, ht, th, mp, rs, la, 1, 0, 0)
                      : export_groebner_qq(cmalloc, &r.ld, &r.len, &r.exp, &r.cf, s.lens, s.exps, s.q, 0, mo, el, nv, s.ng, ht, th, mp, rs, la, 1, 0, 0, 0);
            unchanged(&s, ch ? "export_f4" : "export_groebner_qq"); fsys(&s);
            report(&r, nv, ch != 0);
            if (kp && ch) { if (kept) drop(&keep, keep_ch); keep = r; keep_nv = nv; keep_ch = ch; kept = 1; } else drop(&r, ch);
        } else if (!strcmp(op, "NF")) {
            long ch = rd(); int el = rd(), nv = rd(), th = rd(), isgb = rd(), chain = rd();
            sys t, b; rsys(&t, nv, 0);
            res r; memset(&r, 0xee, sizeof r);
            if (chain) { /* modulo the basis an earlier call returned */
                if (!kept || keep_nv != nv || keep_ch != ch) { fprintf(out, "SKIP %ld\n", job); fsys(&t); continue; }
                long n = 0; for (int i = 0; i < keep.ld; ++i) n += keep.len[i];
                memset(&b, 0, sizeof b); b.nv = nv; b.ng = keep.ld; b.nt = n;
                b.lens = cpy(keep.len, keep.ld * 4); b.exps = cpy(keep.exp, n * nv * 4); b.cf = cpy(keep.cf, n * 4);
                b.lens0 = cpy(keep.len, keep.ld * 4); b.exps0 = cpy(keep.exp, n * nv * 4); b.cf0 = cpy(keep.cf, n * 4);
            } else rsys(&b, nv, 0);
            r.nt = export_nf(cmalloc, &r.ld, &r.len, &r.exp, &r.cf, t.ng, t.lens, t.exps, t.cf, b.ng, b.lens, b.exps, b.cf, ch, 0, el, nv, isgb, th, 0);
            unchanged(&t, "export_nf"); unchanged(&b, "export_nf"); fsys(&t); fsys(&b);
            report(&r, nv, 1);
            drop(&r, ch);
        } else if (!strcmp(op, "SOL")) {
            int nv = rd(), ht = rd(), th = rd(), mp = rd(), la = rd(), gp = rd(), ghand = rd(), prec = rd();
            char **nm = malloc(nv * sizeof(char *)), **nm0 = malloc(nv * sizeof(char *)), file[300];
            for (int i = 0; i < nv; ++i) { char b[64]; if (scanf("%63s", b) != 1) exit(79); nm[i] = cpy(b, strlen(b) + 1); nm0[i] = cpy(b, strlen(b) + 1); }
            if (scanf("%299s", file) != 1) exit(79);
            sys s; rsys(&s, nv, 1);
            int32_t ld = -77, rnv = -77, dim = -77, dq = -77, *lens = NULL, nr = -77, *den = NULL; char **vn = NULL; void *lf = NULL, *cf = NULL, *num = NULL;
            msolve_julia(cmalloc, &ld, &rnv, &dim, &dq, &lens, &vn, &lf, &cf, &nr, &num, &den, s.lens, s.exps, s.q, nm, file, 0, 0, 0, nv, s.ng, ht, th, mp, 0, la, 0, 0, gp, ghand, prec, 0);
            unchanged(&s, "msolve_julia");
            for (int i = 0; i < nv; ++i) if (strcmp(nm[i], nm0[i])) VIOL("msolve_julia: a variable name of the caller was changed");
            fprintf(out, "SOL %ld %d %d", job, ld, dim);
            if (ld >= 0) {
                fprintf(out, " %d %d\nNAMES", rnv, dq);
                for (int i = 0; i < rnv; ++i) fprintf(out, " %s", vn[i]);
                fprintf(out, "\nLF");
                if (lf) { owned(lf, rnv * sizeof(mpz_t), "linear form"); for (int i = 0; i < rnv; ++i) gmp_fprintf(out, " %Zd", ((mpz_t *)lf)[i]); }
                fprintf(out, "\nLENS");
                long n = 0;
                if (lens) { owned(lens, ld * 4, "lengths"); for (int i = 0; i < ld; ++i) { fprintf(out, " %d", lens[i]); n += lens[i]; } }
                fprintf(out, "\nCF");
                if (cf) { owned(cf, n * sizeof(mpz_t), "parametrization"); for (long i = 0; i < n; ++i) gmp_fprintf(out, " %Zd", ((mpz_t *)cf)[i]); }
                fprintf(out, "\nREAL %d", nr);
                if (nr > 0) {
                    owned(num, 2L * nr * nv * sizeof(mpz_t), "numerators"); owned(den, 2L * nr * nv * 4, "denominators");
                    for (long i = 0; i < 2L * nr * nv; ++i) gmp_fprintf(out, " %Zd %d", ((mpz_t *)num)[i], den[i]);
                }
                fprintf(out, "\n"); fflush(out);
                /* what the host does afterwards */
                if (cf) for (long i = 0; i < n; ++i) mpz_clear(((mpz_t *)cf)[i]);
                if (nr > 0) for (long i = 0; i < 2L * nr * nv; ++i) mpz_clear(((mpz_t *)num)[i]);
                void *a = cf, *b = num;
                if (lens) { free_msolve_julia_result_data(cfree, &lens, &cf, &num, &den, ld, nr, 0); if (lens || cf || num || den) VIOL("released results are still referenced"); }
                if (a) cfree(a); if (b) cfree(b);
                if (lf) { for (int i = 0; i < rnv; ++i) mpz_clear(((mpz_t *)lf)[i]); cfree(lf); }
            } else fprintf(out, "\n");
            for (int i = 0; i < nv; ++i) { free(nm[i]); free(nm0[i]); }
            free(nm); free(nm0); fsys(&s);
        } else return 81;
        long expect = kept ? 3 : 0;
        if (nb != expect) { VIOL("%ld blocks of the caller's allocator are left after a call whose results were released", nb - expect); nb = expect; }
    }
    fprintf(out, "END %ld alloc %ld\n", job, n_alloc); fclose(out);
    return 0;
}
