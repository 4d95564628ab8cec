/* Multi-precision numbers with symbolic digits and their exact values. */
#ifndef H_MPI_H_
#define H_MPI_H_
#include "vp.h"
#include <cry/mpi.h>
#include <stdlib.h>
#include <string.h>
#ifndef WBITS
#define WBITS 256
#endif
typedef unsigned _BitInt(WBITS) W;
typedef signed _BitInt(WBITS) SW;
#define DB CRY_MPI_DIGIT_BITS
#define MAXD (WBITS / DB)

/* n digits, arbitrary; the top one is not zero; space for extra more digits that hold nothing */
static void mk(cry_mpi *a, int n, int neg, int extra)
{
    cry_mpi_digit d[n + 1];
    int i;
    if (cry_mpi_init_size(a, n + extra) != 0) abort();
    for (i = 0; i < n; i++) vp_word(&d[i], sizeof(d[i]));
    if (n) vp_assume(d[n - 1] != 0);
    for (i = 0; i < n; i++) a->data[i] = d[i];
    a->used = n;
    a->sign = n ? neg : 0;
}
static W mag(const cry_mpi *a)
{
    W v = 0;
    int i;
    for (i = 0; i < MAXD; i++)
        if (i < a->used) v |= (W)a->data[i] << (DB * i);
    return v;
}
static SW val(const cry_mpi *a)
{
    SW v = (SW)mag(a);
    return a->sign ? -v : v;
}
/* a number in normal form: no leading zeros, zero is not negative */
static void valid(const cry_mpi *a)
{
    vp_check(a->used <= a->alloc, "used digits are allocated");
    vp_check(a->used <= MAXD, "size of the result");
    vp_check(a->used == 0 || a->data[a->used - 1] != 0, "no leading zero digits");
    vp_check(a->sign == 0 || a->sign == 1, "sign is 0 or 1");
    vp_check(a->used != 0 || a->sign == 0, "zero is not negative");
}
/* a holds v, in normal form */
static void is(const cry_mpi *a, SW v, const char *msg)
{
    valid(a);
    vp_check(val(a) == v, msg);
}
#ifdef STUB_BITS
/* the number of bits, explored value by value (P23 shows that the library counts right) */
size_t vp_stub_cry_mpi_count_bits(const cry_mpi *a)
{
    size_t n = 0, i;
    if (a->used == 0) return 0;
    for (i = 0; i < DB; i++) {
        size_t b = a->data[a->used - 1] >> i & 1;
        n = (-b & (i + 1)) | ((b - 1) & n);
    }
    return vp_conc(n) + (a->used - 1) * DB;
}
#endif
#endif
