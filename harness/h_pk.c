/* DSA and Elgamal signatures over small groups; the sources are compiled here with the random numbers replaced by arbitrary ones */
#define VB 18
#include "mpis.h"
#include <cry/dsa.h>
#include <cry/elgamal.h>
#include "mpi/mpi_pvt.h"
static int ndraw;
static unsigned char draw[2];
static int h_rand(cry_mpi *r, size_t bits)
{
    vp_assume(ndraw < 2);
    cry_mpi_digit d = draw[ndraw++] & ((1u << bits) - 1);
    if (cry_mpi_grow(r, 1) != 0) abort();
    r->data[0] = d; r->used = d != 0; r->sign = 0;
    return 0;
}
static int h_rand_range(cry_mpi *r, const cry_mpi *n)
{
    vp_assume(ndraw < 2);
    cry_mpi_digit d = draw[ndraw++];
    vp_assume(d < n->data[0]);
    if (cry_mpi_grow(r, 1) != 0) abort();
    r->data[0] = d; r->used = d != 0; r->sign = 0;
    return 0;
}
#define cry_mpi_rand h_rand
#define cry_mpi_rand_range h_rand_range
#ifdef DSA
#define cry_dsa_sign h_dsa_sign
#define cry_dsa_verify h_dsa_verify
#define cry_dsa_init h_dsa_init
#define cry_dsa_clear h_dsa_clear
#define cry_dsa_keygen h_dsa_keygen
#include "crypt/dsa.c"
#else
#define cry_elgamal_sign h_elgamal_sign
#define cry_elgamal_verify h_elgamal_verify
#define cry_elgamal_sign2 h_elgamal_sign2
#define cry_elgamal_verify2 h_elgamal_verify2
#define cry_elgamal_init h_elgamal_init
#define cry_elgamal_clear h_elgamal_clear
#include "crypt/elgamal.c"
#endif

static unsigned char msg[12];
static void draws(void) { vp_sym(draw, 2); vp_sym(msg, sizeof(msg)); }
/* b to the e for constants */
static int ipow(int b, int e, int m) { int r = 1; while (e-- > 0) r = r * b % m; return r; }
static V small(int max) { unsigned char x = vp_u8(); vp_assume(x <= max); return x; }
#ifdef DSA
/* p, q, generator of order q */
static const struct { int p, q, g; } gr[] = {{23, 11, 4}, {29, 7, 7}, {11, 5, 4}};
static cry_dsa_ctx C;
static int P, Q, W, D;
static void setup(void)
{
    P = gr[vp_arg(0)].p; Q = gr[vp_arg(0)].q; W = gr[vp_arg(0)].g; D = vp_arg(1);
    mset(&C.p, P); mset(&C.q, Q); mset(&C.g, W); mset(&C.pvt, D); mset(&C.pub, ipow(W, D, P));
}
/* r = (g^e mod p) mod q, by table */
static V gpow(V e) { V r = 0; int k; for (k = 0; k < Q; k++) r = e % Q == k ? (V)(ipow(W, k, P) % Q) : r; return r; }
static V hash(size_t len) { return len ? (V)msg[0] : (V)0; }
static int valid(V r, V s, V z)
{
    V w;
    if (r <= 0 || r >= Q || s <= 0 || s >= Q) return 0;
    w = minv(s, Q);
    return gpow((z * w + (V)D * (r * w % Q)) % Q) == r;
}
/* arg: group, private key, length of the message, sign of r, s */
void t_verify(void)
{
    V r = small(2 * 31), s = small(2 * 31);
    cry_dsa_sig S;
    int res;
    draws(); setup();
    if (vp_arg(3) & 1) r = -r;
    if (vp_arg(3) & 2) s = -s;
    mset(&S.r, r); mset(&S.s, s);
    res = h_dsa_verify(&C, &S, msg, vp_arg(2));
    vp_check((res == 0) == valid(r, s, hash(vp_arg(2))), "accepted if and only if valid");
    vp_check(mis(&S.r, r) && mis(&S.s, s), "signature unchanged");
}
void t_sign(void)
{
    V r, s, k;
    cry_dsa_sig S;
    draws(); setup();
    cry_mpi_init_list(&S.r, &S.s, (cry_mpi *)NULL);
    vp_check(h_dsa_sign(&C, &S, msg, vp_arg(2)) == 0, "signs");
    r = mv(&S.r); s = mv(&S.s);
    vp_check(mis(&S.r, r) && mis(&S.s, s), "normal form");
    vp_check(valid(r, s, hash(vp_arg(2))), "signature is valid");
    vp_check(ndraw > 0, "secret is drawn at random");
}
#else
/* p, primitive root */
static const struct { int p, g; } gr[] = {{23, 5}, {13, 2}, {7, 3}};
static cry_elgamal_ctx C;
static int P, W, D;
static void setup(void)
{
    P = gr[vp_arg(0)].p; W = gr[vp_arg(0)].g; D = vp_arg(1);
    mset(&C.p, P); mset(&C.g, W); mset(&C.d, D); mset(&C.y, ipow(W, D, P));
}
static V lg(V a) { V r = 0; int k; for (k = 0; k < P - 1; k++) r = a == ipow(W, k, P) ? (V)k : r; return r; }
static int valid(V r, V s, V z)
{
    if (r <= 0 || r >= P || s <= 0 || s >= P - 1) return 0;
    return (z - (V)D * r - lg(r) * s) % (P - 1) == 0;
}
static V hash(size_t len) { return len ? (V)msg[0] : (V)0; }
/* arg: group, private key, length of the message, sign of r, s, encoded */
void t_verify(void)
{
    V r = small(40), s = small(40);
    unsigned char b[2];
    cry_elgamal_sig S;
    int res, len = vp_arg(2);
    draws(); setup();
    if (vp_arg(4)) {
        b[0] = r; b[1] = s;
        res = h_elgamal_verify(&C, b, msg, len);
    } else {
        if (vp_arg(3) & 1) r = -r;
        if (vp_arg(3) & 2) s = -s;
        mset(&S.r, r); mset(&S.s, s);
        res = h_elgamal_verify2(&C, &S, msg, len);
        vp_check(mis(&S.r, r) && mis(&S.s, s), "signature unchanged");
    }
    vp_check((res == 0) == (len <= 1 && valid(r, s, hash(len))), "accepted if and only if valid");
}
void t_sign(void)
{
    V r, s;
    unsigned char b[4] = {0xa5, 0xa5, 0xa5, 0xa5};
    cry_elgamal_sig S;
    int res, len = vp_arg(2);
    draws(); setup();
    if (vp_arg(4)) {
        res = h_elgamal_sign(&C, b, msg, len);
        r = b[0]; s = b[1];
        vp_check(b[2] == 0xa5 && b[3] == 0xa5, "writes nothing beyond the signature");
    } else {
        cry_mpi_init_list(&S.r, &S.s, (cry_mpi *)NULL);
        res = h_elgamal_sign2(&C, &S, msg, len);
        r = mv(&S.r); s = mv(&S.s);
        vp_check(mis(&S.r, r) && mis(&S.s, s), "normal form");
    }
    vp_check((res == 0) == (len <= 1), "signs messages that fit");
    if (res == 0) {
        vp_check(valid(r, s, hash(len)), "signature is valid");
        vp_check(ndraw > 0, "secret is drawn at random");
    }
}
#endif
