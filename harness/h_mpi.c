#include "mpi.h"

static void same(const cry_mpi *a, SW v, const char *msg) { vp_check(val(a) == v, msg); }

/* arg: operation (0 add, 1 sub, 2 add_abs, 3 sub_abs), digits and sign of a and b, aliasing (1 r = a, 2 r = b, 3 r = a = b, 4 a = b), space in r */
void t_add(void)
{
    int op = vp_arg(0), al = vp_arg(5), res;
    cry_mpi A, B, R, *a = &A, *b = &B, *r = &R;
    SW x, y, want;
    mk(a, vp_arg(1), vp_arg(2), al == 1 ? vp_arg(6) : 0);
    if (al >= 3) b = a; else mk(b, vp_arg(3), vp_arg(4), al == 2 ? vp_arg(6) : 0);
    if (al == 1 || al == 3) r = a;
    else if (al == 2) r = b;
    else mk(r, 1, 1, vp_arg(6));
    x = val(a); y = val(b);
    switch (op) {
    case 0: want = x + y; res = cry_mpi_add(r, a, b); break;
    case 1: want = x - y; res = cry_mpi_sub(r, a, b); break;
    case 2: want = (SW)(mag(a) + mag(b)); res = cry_mpi_add_abs(r, a, b); break;
    default:
        want = (SW)(mag(a) - mag(b));
        res = cry_mpi_sub_abs(r, a, b);
        if (want < 0) {
            vp_check(res == -1, "a negative difference of absolute values is refused");
            same(a, x, "refused: operands unchanged"); same(b, y, "refused: operands unchanged");
            return;
        }
    }
    vp_check(res == 0, "returns success");
    is(r, want, "exact result");
    if (r != a) same(a, x, "first operand unchanged");
    if (r != b) same(b, y, "second operand unchanged");
    cry_mpi_clear(a);
    if (b != a) cry_mpi_clear(b);
    if (r != a && r != b) cry_mpi_clear(r);
    vp_check(vp_live() == 0, "memory is released");
}
/* arg: digits and sign of a and b */
void t_cmp(void)
{
    cry_mpi a, b;
    SW x, y;
    W m, n;
    mk(&a, vp_arg(0), vp_arg(1), 0);
    mk(&b, vp_arg(2), vp_arg(3), 0);
    x = val(&a); y = val(&b); m = mag(&a); n = mag(&b);
    vp_check(cry_mpi_cmp(&a, &b) == (x > y) - (x < y), "signed comparison");
    vp_check(cry_mpi_cmp_abs(&a, &b) == (m > n) - (m < n), "comparison of absolute values");
    vp_check(cry_mpi_cmp(&a, &a) == 0 && cry_mpi_cmp_abs(&b, &b) == 0, "a number equals itself");
    vp_check(cry_mpi_is_zero(&a) == (x == 0) && cry_mpi_is_neg(&a) == (x < 0), "predicates");
    vp_check(!cry_mpi_is_odd(&a) == !(m & 1), "parity");
}
/* arg: digits, sign */
void t_bits(void)
{
    cry_mpi a;
    W m;
    size_t bits;
    mk(&a, vp_arg(0), vp_arg(1), 2);
    m = mag(&a);
    vp_nomerge(1);
    bits = vp_conc(cry_mpi_count_bits(&a));
    vp_check(m == 0 ? bits == 0 : bits <= WBITS && m >> (bits - 1) == 1, "number of bits");
    vp_check(cry_mpi_count_bytes(&a) == (bits + 7) / 8, "number of bytes");
}
/* arg: digits and sign, shift, in place, right, space in the destination */
void t_shift(void)
{
    int n = vp_arg(2), ip = vp_arg(3);
    cry_mpi a, r;
    SW x;
    W m;
    mk(&a, vp_arg(0), vp_arg(1), ip ? vp_arg(5) : 0);
    if (!ip) mk(&r, 1, 1, vp_arg(5));
    x = val(&a); m = mag(&a);
    m = vp_arg(4) ? m >> n : m << n;
    vp_check((vp_arg(4) ? cry_mpi_shr : cry_mpi_shl)(ip ? &a : &r, &a, n) == 0, "returns success");
    if (!ip) same(&a, x, "operand unchanged");
    /* the absolute value is shifted; the sign stays */
    is(ip ? &a : &r, x < 0 ? -(SW)m : (SW)m, "shift");
}
/* arg: number of bytes, digits in the destination, sign there, initialising */
void t_loadbin(void)
{
    int n = vp_arg(0), i;
    cry_mpi a;
    unsigned char b[n + 1];
    W w = 0;
    vp_sym(b, n);
    for (i = 0; i < n; i++) w = w << 8 | b[i];
    if (vp_arg(3)) {
        vp_check(cry_mpi_init_bin(&a, b, n) == 0, "returns success");
    } else {
        mk(&a, vp_arg(1), vp_arg(2), 0);
        vp_check(cry_mpi_load_bin(&a, b, n) == 0, "returns success");
    }
    is(&a, (SW)w, "value of the bytes");
    cry_mpi_clear(&a);
    vp_check(vp_live() == 0, "memory is released");
}
/* arg: digits, sign, buffer size, padding */
void t_storebin(void)
{
    int n = vp_arg(2), pad = vp_arg(3), i, res;
    size_t len = 0;
    cry_mpi a;
    unsigned char b[n + 2];
    W m;
    vp_nomerge(1);
    mk(&a, vp_arg(0), vp_arg(1), 0);
    m = mag(&a);
    len = (cry_mpi_count_bits(&a) + 7) / 8;
    vp_check(len == 0 ? m == 0 : m >> (8 * (len - 1)) != 0 && m >> (8 * len) == 0, "number of bytes");
    memset(b, 0x5a, n + 2);
    res = cry_mpi_store_bin(&a, b + 1, n, pad);
    vp_check(b[0] == 0x5a && b[n + 1] == 0x5a, "nothing is written outside the buffer");
    if ((int)len > n) {
        vp_check(res != 0, "a number too large for the buffer is refused");
        return;
    }
    vp_check(res == 0, "returns success");
    for (i = 0; i < n; i++) {
        int k = pad ? n - 1 - i : (int)len - 1 - i;
        unsigned char w = k < 0 ? 0x5a : k >= (int)len ? 0 : (unsigned char)(m >> (8 * k));
        vp_check(b[1 + i] == w, "bytes of the number, most significant first");
    }
}
/* arg: digits, sign */
void t_getint(void)
{
    cry_mpi a;
    long v = 4711;
    SW x;
    int res;
    vp_nomerge(1);
    mk(&a, vp_arg(0), vp_arg(1), 0);
    x = val(&a);
    res = cry_mpi_get_int(&a, &v);
    if (x >= INT64_MIN && x <= INT64_MAX) {
        vp_check(res == 0, "a number in the range is accepted");
        vp_check(v == (long)x, "value");
    } else {
        vp_check(res != 0 && v == 4711, "a number out of range is refused");
    }
}
/* arg: digits and sign of the destination, initialising */
void t_setint(void)
{
    cry_mpi a;
    long v = vp_u64(), w;
    vp_nomerge(1);
    if (vp_arg(2)) {
        vp_check(cry_mpi_init_int(&a, v) == 0, "returns success");
    } else {
        mk(&a, vp_arg(0), vp_arg(1), 0);
        vp_check(cry_mpi_set_int(&a, v) == 0, "returns success");
    }
    is(&a, v, "value of the integer");
    vp_check(cry_mpi_get_int(&a, &w) == 0 && w == v, "round trip");
    cry_mpi_clear(&a);
    vp_check(vp_live() == 0, "memory is released");
}
/* arg: digits and sign of the source and the destination, initialising, abs */
void t_copy(void)
{
    cry_mpi a, b;
    SW x;
    vp_nomerge(1);
    mk(&a, vp_arg(0), vp_arg(1), 0);
    x = val(&a);
    if (vp_arg(4)) {
        vp_check(cry_mpi_init_copy(&b, &a) == 0, "returns success");
    } else {
        mk(&b, vp_arg(2), vp_arg(3), 0);
        vp_check((vp_arg(5) ? cry_mpi_abs : cry_mpi_copy)(&b, &a) == 0, "returns success");
    }
    is(&b, vp_arg(5) && x < 0 ? -x : x, "copy");
    same(&a, x, "source unchanged");
    if (a.used) a.data[0]++;
    vp_check(val(&b) == (vp_arg(5) && x < 0 ? -x : x), "the copy is independent");
    if (a.used) a.data[0]--;
    cry_mpi_swap(&a, &b);
    is(&b, x, "swap");
    vp_check((vp_arg(5) ? cry_mpi_abs : cry_mpi_copy)(&a, &a) == 0, "returns success");
    is(&a, vp_arg(5) && x < 0 ? -x : x, "copy to itself");
    cry_mpi_clear(&a); cry_mpi_clear(&b);
    vp_check(vp_live() == 0, "memory is released");
}
