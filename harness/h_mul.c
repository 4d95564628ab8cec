#include "mpi.h"
#include "mpi/mpi_pvt.h"
/* products of digits, as the sum of the products of pairs of digits */
static W prod(const cry_mpi *a, const cry_mpi *b)
{
    W s = 0;
    int i, j;
    for (i = 0; i < a->used; i++)
        for (j = 0; j < b->used; j++) s += (W)((cry_mpi_dword)a->data[i] * (cry_mpi_dword)b->data[j]) << (DB * (i + j));
    return s;
}
/* digits with all bits but the lowest and highest equal: carries everywhere */
static void mk2(cry_mpi *a, int n, int neg, int extra, int mode, int sym)
{
    cry_mpi_digit d[n + 1];
    int i;
    if (mode == 0) { mk(a, n, neg, extra); return; }
    if (cry_mpi_init_size(a, n + extra) != 0) abort();
    for (i = 0; i < n; i++) {
        cry_mpi_digit x = mode == 1 ? vp_u8() : (vp_arg(8) >> (2 * (i % 8)) & 3) == 0 && i == n - 1 ? 1 : vp_arg(8) >> (2 * (i % 8)) & 3, lo = x & 1, hi = x >> 1 & 1;
        vp_assume(x < 4);
        d[i] = lo | hi << (DB - 1) | ((-(lo & hi)) & ((cry_mpi_digit)-1 >> 1) & (cry_mpi_digit)~1);
    }
    if (sym >= 0) vp_word(&d[sym], sizeof(d[0]));
    if (n) vp_assume(d[n - 1] != 0);
    for (i = 0; i < n; i++) a->data[i] = d[i];
    a->used = n;
    a->sign = n ? neg : 0;
}
/* arg: function, digits and sign of a, of b, aliasing (1 r = a, 2 r = b, 3 r = a = b, 4 a = b), space in r, kind of digits */
void t_mul(void)
{
    int fn = vp_arg(0), al = vp_arg(5), res;
    cry_mpi A, B, R, *a = &A, *b = &B, *r = &R;
    SW x, y, want;
    mk2(a, vp_arg(1), vp_arg(2), al == 1 ? vp_arg(6) : 0, vp_arg(7) == 2 ? 1 : vp_arg(7), vp_arg(7) == 3 ? (int)vp_arg(9) : -1);
    if (al >= 3) b = a; else mk2(b, vp_arg(3), vp_arg(4), al == 2 ? vp_arg(6) : 0, vp_arg(7), -1);
    if (al == 1 || al == 3) r = a;
    else if (al == 2) r = b;
    else mk(r, 1, fn == 0 || fn == 5, vp_arg(6));
    x = val(a); y = val(b);
    want = (SW)prod(a, b);
    switch (fn) {
    case 0: res = cry_mpi_mul(r, a, b); if (a->sign ^ b->sign && r != a && r != b) want = -want; else if (r == a || r == b) want = (x < 0) ^ (y < 0) ? -want : want; break;
    case 1: res = cry_mpi_mul_baseline(r, a, b); break;
    case 2: res = cry_mpi_mul_comba(r, a, b); break;
    case 3: res = cry_mpi_mul_karatsuba(r, a, b); break;
    case 4: res = cry_mpi_mul_toom3(r, a, b); break;
    case 5: res = cry_mpi_sqr(r, a); break;
    case 6: res = cry_mpi_sqr_baseline(r, a); break;
    case 7: res = cry_mpi_sqr_comba(r, a); break;
    default: res = cry_mpi_sqr_karatsuba(r, a); break;
    }
    vp_check(res == 0, "returns success");
    if (fn == 0) { valid(r); vp_check(val(r) == want, "exact product"); }
    else {
        vp_check(r->used <= r->alloc && r->used <= MAXD && (r->used == 0 || r->data[r->used - 1] != 0), "no leading zero digits");
        vp_check((SW)mag(r) == want, "exact absolute value of the product");
        if (fn >= 5) vp_check(r->sign == 0, "a square is not negative");
    }
    if (r != a) vp_check(val(a) == x, "first operand unchanged");
    if (r != b) vp_check(val(b) == y, "second operand unchanged");
    cry_mpi_clear(a);
    if (b != a) cry_mpi_clear(b);
    if (r != a && r != b) cry_mpi_clear(r);
    vp_check(vp_live() == 0, "memory is released");
}
/* arg: digits, sign, in place */
void t_muldig(void)
{
    cry_mpi a, r, *p = &r, t;
    cry_mpi_digit d;
    SW x;
    W w;
    vp_word(&d, sizeof(d));
    mk(&a, vp_arg(0), vp_arg(1), 0);
    if (vp_arg(2)) p = &a; else mk(&r, 1, 1, 0);
    x = val(&a);
    t.data = &d; t.used = 1;
    w = prod(&a, &t);
    vp_check(cry_mpi_mul_dig(p, &a, d) == 0, "returns success");
    is(p, x < 0 ? -(SW)w : (SW)w, "product with a digit");
}
/* arg: digits and sign of a, of b, aliasing (1 q = a, 2 q = b, 3 r = a, 4 r = b, 5 no q, 6 no r, 7 q = a and r = b, 8 q = b and r = a), abs, kind, constant, symbolic digit */
void t_div(void)
{
    int al = vp_arg(4), res;
    cry_mpi a, b, Q, R, *q = &Q, *r = &R;
    SW x, y, u, v;
    mk2(&a, vp_arg(0), vp_arg(1), 0, vp_arg(6) == 2 ? 1 : vp_arg(6), vp_arg(6) == 3 ? (int)vp_arg(9) : -1);
    mk2(&b, vp_arg(2), vp_arg(3), 0, vp_arg(6), -1);
    mk(q, 1, 1, 0);
    mk(r, 1, 1, 0);
    if (al == 1 || al == 7) q = &a;
    if (al == 2 || al == 8) q = &b;
    if (al == 3 || al == 8) r = &a;
    if (al == 4 || al == 7) r = &b;
    if (al == 5) q = NULL;
    if (al == 6) r = NULL;
    x = val(&a); y = val(&b);
    res = (vp_arg(5) ? cry_mpi_div_abs : cry_mpi_div)(q, r, &a, &b);
    if (y == 0) {
        vp_check(res != 0, "division by zero is refused");
        return;
    }
    vp_check(res == 0, "returns success");
    if (q) { valid(q); u = val(q); }
    if (r) { valid(r); v = val(r); }
    if (vp_arg(5)) {
        if (x < 0) x = -x;
        if (y < 0) y = -y;
        if (r && v < 0) v = -v;     /* by absolute values; the sign of the remainder may be that of a */
    }
    /* the remainder is the absolute value of x - floor(x / y) * y */
    if (r) vp_check(v >= 0, "the remainder is not negative");
    if (r && y < 0) v = -v;
    if (!r) v = x - u * y;
    if (q) vp_check(x == u * y + v, "quotient and remainder");
    else {
        SW ax = x < 0 ? -x : x, ay = y < 0 ? -y : y, m = ax % ay;
        if (m != 0 && (x < 0) != (y < 0)) m = ay - m;
        vp_check(v == (y < 0 ? -m : m), "remainder");
    }
    vp_check(y > 0 ? v >= 0 && v < y : v <= 0 && v > y, "range of the remainder");
    if (q != &a && r != &a) vp_check(val(&a) == (vp_arg(5) && vp_arg(1) ? -x : x), "dividend unchanged");
    if (q != &b && r != &b) vp_check(val(&b) == (vp_arg(5) && vp_arg(3) ? -y : y), "divisor unchanged");
    cry_mpi_clear(&a); cry_mpi_clear(&b);
    if (q == &Q) cry_mpi_clear(q); else cry_mpi_clear(&Q);
    if (r == &R) cry_mpi_clear(r); else cry_mpi_clear(&R);
    vp_check(vp_live() == 0, "memory is released");
}
