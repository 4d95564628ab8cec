/* Big numbers of at most one (64-bit) digit, computed directly: stands in for src/mpi under the engine when the code above it is
 * examined (src/mpi has its own properties). Native replays use src/mpi itself. */
#ifndef H_MPIS_H_
#define H_MPIS_H_
#include "vp.h"
#include <cry/mpi.h>
#include <stdlib.h>
#include <string.h>
#ifndef VB
#define VB 24
#endif
typedef signed _BitInt(VB) V;       /* numbers in these harnesses stay far below */
static V mv(const cry_mpi *a)
{
    V m = a->used ? (V)a->data[0] : 0;
    return a->sign ? -m : m;
}
static int put(cry_mpi *r, V v)
{
    r->sign = v < 0;
    r->used = v != 0;
    r->data[0] = (cry_mpi_digit)(v < 0 ? -v : v);
    return 0;
}
/* remainder in [0, m) */
static V mmod(V a, V m) { V r = a % m; return r < 0 ? r + m : r; }
/* inverse, 0 if there is none; m is a constant */
static V minv(V a, V m)
{
    V r = 0, v, w;
    a = mmod(a, m);
    for (v = 1; v < m; v++)
        for (w = 1; w < m; w++)
            if (v * w % m == 1) r = a == v ? w : r;
    return r;
}
/* m is a constant and prime (table of powers, exponents modulo m - 1) */
static V mpow(V b, V e, V m)
{
    V r = 0, x = 0, v, k, t;
    b = mmod(b, m);
    x = e % (m - 1);
    for (v = 1; v < m; v++) {
        if (b != v) continue;
        t = 1;
        for (k = 0; k < m - 1; k++, t = t * v % m) r = x == k ? t : r;
    }
    return b == 0 && e == 0 ? (V)1 : r;
}
static V mgcd(V a, V b)    /* b is a constant */
{
    V r = b, d;
    for (d = 1; d <= b; d++)
        if (b % d == 0) r = mmod(a, d) == 0 ? d : r;
    return r;
}
int vp_stub_cry_mpi_copy(cry_mpi *d, const cry_mpi *s) { return put(d, mv(s)); }
int vp_stub_cry_mpi_add(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return put(r, mv(a) + mv(b)); }
int vp_stub_cry_mpi_sub(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return put(r, mv(a) - mv(b)); }
int vp_stub_cry_mpi_mul(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return put(r, mv(a) * mv(b)); }
int vp_stub_cry_mpi_sqr(cry_mpi *r, const cry_mpi *a) { return put(r, mv(a) * mv(a)); }
int vp_stub_cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit b) { return put(r, mv(a) * (V)b); }
static V vabs(V a) { return a < 0 ? -a : a; }
int vp_stub_cry_mpi_add_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return put(r, vabs(mv(a)) + vabs(mv(b))); }
int vp_stub_cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    V d = vabs(mv(a)) - vabs(mv(b));
    if (d < 0) return -1;
    return put(r, d);
}
int vp_stub_cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    V x = mv(a), y = mv(b), m;
    if (y == 0) return -1;
    if (y < 0) abort();
    m = mmod(x, y);
    if (q) put(q, (x - m) / y);
    if (r) put(r, m);
    return 0;
}
int vp_stub_cry_mpi_shl(cry_mpi *r, const cry_mpi *a, size_t n) { return put(r, mv(a) * ((V)1 << n)); }
int vp_stub_cry_mpi_shr(cry_mpi *r, const cry_mpi *a, size_t n) { V x = mv(a), y = vabs(x) >> n; return put(r, x < 0 ? -y : y); }
int vp_stub_cry_mpi_cmp(const cry_mpi *a, const cry_mpi *b) { V x = mv(a), y = mv(b); return (x > y) - (x < y); }
int vp_stub_cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b) { V x = vabs(mv(a)), y = vabs(mv(b)); return (x > y) - (x < y); }
int vp_stub_cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
{
    V v = minv(mv(a), mv(m));
    if (v == 0) return -1;
    return put(r, v);
}
int vp_stub_cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e, const cry_mpi *m) { return put(r, mpow(mv(b), mv(e), mv(m))); }
int vp_stub_cry_mpi_gcd(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return put(r, mgcd(mv(a), mv(b))); }
int vp_stub_cry_mpi_load_bin(cry_mpi *r, const void *b, size_t n)
{
    const unsigned char *p = b;
    V v = 0;
    while (n--) v = v << 8 | *p++;
    return put(r, v);
}
static void mset(cry_mpi *a, V v)
{
    if (cry_mpi_init(a) != 0) abort();
    put(a, v);
}
/* a is v, in normal form */
static int mis(const cry_mpi *a, V v) { return mv(a) == v && a->used <= 1 && (a->used == 0 || a->data[0] != 0) && (a->used || !a->sign); }
#endif
