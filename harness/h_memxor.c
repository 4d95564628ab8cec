#include "vp.h"
#include <string.h>
#include <cry/memxor.h>

/* dst[i] = src1[i] ^ src2[i] of the values before the call, whatever the relative position of the three areas */
static void one(int n, int d, int a, int b, int size, int fail)
{
    unsigned char buf[size], old[size], want[size];
    int i;
    vp_sym(old, size);
    memcpy(buf, old, size);
    memcpy(want, old, size);
    for (i = 0; i < n; i++) want[d + i] = old[a + i] ^ old[b + i];
    if (fail) vp_fail_alloc(1);
    cry_memxor2(buf + d, buf + a, buf + b, n);
    vp_fail_alloc(0);
    vp_check_eq(buf, want, size, "exclusive or of the values before the call, nothing else changes");
    vp_check(vp_live() == 0, "no memory is leaked");
}

void t_xor2(void)
{
    int n = vp_arg(0), d = vp_arg(1), lim = 3 * n + 2, a, b;
    for (a = 0; a <= lim; a++)
        for (b = 0; b <= lim; b++)
            one(n, d, a, b, lim + n + 1, 0);
}

/* the same where no memory can be had */
void t_oom(void)
{
    int n = vp_arg(0), lim = 3 * n + 2, a, b, d = n + 1;
    for (a = 0; a <= lim; a++)
        for (b = 0; b <= lim; b++)
            if (!((a < d && d < b && b < a + n) || (b < d && d < a && a < b + n)) && b != a + n && a != b + n)
                one(n, d, a, b, lim + n + 1, 1);
}

void t_oom4(void)
{
    one(4, 2, 1, 3, 10, 1);
}

void t_xor(void)
{
    int n = vp_arg(0), d, a, i, size = 3 * n + 3;
    for (d = 0; d <= 2 * n + 2; d++)
        for (a = 0; a <= 2 * n + 2; a++) {
            unsigned char buf[size], old[size], want[size];
            vp_sym(old, size);
            memcpy(buf, old, size);
            memcpy(want, old, size);
            for (i = 0; i < n; i++) want[d + i] = old[d + i] ^ old[a + i];
            cry_memxor(buf + d, buf + a, n);
            vp_check_eq(buf, want, size, "exclusive or of the values before the call, nothing else changes");
        }
}
