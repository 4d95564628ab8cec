#ifdef ECDSA
#define VB 18
#endif
#include "mpis.h"
#include <cry/ecp.h>
#ifdef ECDSA
#define STUB_EC
#include <cry/ecdsa.h>
#include "mpi/mpi_pvt.h"
#endif
/* cyclic curves: p, a, b, order, multiples of the generator (index 0: the point at infinity) */
static const struct { int p, a, b, n; unsigned char x[20], y[20]; } cv[] = {
{17, 2, 2, 19, {1, 0, 9, 6, 7, 10, 3, 13, 5, 16, 16, 5, 13, 3, 10, 7, 6, 9, 0}, {1, 6, 1, 3, 6, 11, 1, 10, 16, 13, 4, 1, 7, 16, 6, 11, 14, 16, 11}},
{23, 1, 19, 19, {1, 2, 4, 21, 18, 7, 17, 20, 3, 11, 11, 3, 20, 17, 7, 18, 21, 4, 2}, {1, 11, 15, 20, 2, 22, 2, 9, 7, 2, 21, 16, 14, 21, 1, 21, 3, 8, 12}},
{13, 1, 1, 18, {1, 1, 8, 0, 11, 5, 10, 12, 4, 7, 4, 12, 10, 5, 11, 0, 8, 1}, {1, 4, 12, 12, 11, 1, 6, 8, 2, 0, 11, 5, 7, 12, 2, 1, 1, 9}},
{11, 2, 1, 16, {1, 0, 1, 8, 3, 6, 10, 5, 9, 5, 10, 6, 3, 8, 1, 0}, {1, 1, 9, 1, 10, 3, 3, 9, 0, 2, 8, 8, 1, 10, 2, 10}},
{5, 1, 1, 9, {1, 0, 4, 2, 3, 3, 2, 4, 0}, {1, 1, 2, 1, 4, 1, 4, 3, 4}},
{7, 1, 3, 6, {1, 4, 6, 5, 6, 4}, {1, 1, 6, 0, 1, 6}},
{7, 1, 1, 5, {1, 0, 2, 2, 0}, {1, 1, 5, 2, 6}},
{5, 2, 1, 7, {1, 0, 1, 3, 3, 1, 0}, {1, 1, 3, 3, 2, 2, 4}},
{11, 2, 7, 7, {1, 6, 10, 7, 7, 10, 6}, {1, 2, 9, 10, 1, 2, 9}},
};
static int c;
static cry_ecp_grp G;
#if defined(STUB_EC) && !defined(VP_NATIVE) && !defined(ECDSA)
#define INDEX
static V px(V i) { return i; }
static V py(V i) { return i; }
#else
static V px(V i) { V r = 1; int k; for (k = 0; k < cv[c].n; k++) r = i == k ? (V)cv[c].x[k] : r; return r; }
static V py(V i) { V r = 1; int k; for (k = 0; k < cv[c].n; k++) r = i == k ? (V)cv[c].y[k] : r; return r; }
#endif
static void setup(int w)
{
    c = w;
    mset(&G.p, cv[c].p); mset(&G.a, cv[c].a); mset(&G.b, cv[c].b); mset(&G.n, cv[c].n);
    mset(&G.g.x, px(1)); mset(&G.g.y, py(1)); mset(&G.g.z, 1);
}
/* the point i times the generator */
static void point(cry_ecp *p, V i) { mset(&p->x, px(i)); mset(&p->y, py(i)); mset(&p->z, i != 0); }
static void ispt(const cry_ecp *p, V i, const char *msg)
{
    vp_check(mis(&p->z, i != 0), msg);
    if (i != 0) vp_check(mis(&p->x, px(i)) && mis(&p->y, py(i)), msg);
}
static V idx(void) { unsigned char i = vp_u8(); vp_assume(i < cv[c].n); return i; }
static V md(V a) { return a % cv[c].n; }
/* arg: curve, aliasing (0 none, 1 r = p, 2 r = q, 3 p = q, 4 all) */
void t_add(void)
{
    V i, j;
    cry_ecp P, Q, R, *q = &Q, *r = &R;
    int al = vp_arg(1);
    setup(vp_arg(0));
    i = idx();
    j = al >= 3 ? i : idx();
    point(&P, i); point(&Q, j);
    cry_ecp_init(&R);
    if (al >= 3) q = &P;
    if (al == 1 || al == 4) r = &P;
    if (al == 2) r = q;
    vp_check(cry_ecp_add(r, &P, q, &G) == 0, "returns success");
    ispt(r, md(i + j), "sum of two points");
    if (r != &P) ispt(&P, i, "operand unchanged");
    if (r != q) ispt(q, al >= 3 ? i : j, "operand unchanged");
}
/* arg: curve, in place */
void t_dbl(void)
{
    V i;
    cry_ecp P, R, *r = &R;
    setup(vp_arg(0));
    i = idx();
    point(&P, i);
    cry_ecp_init(&R);
    if (vp_arg(1)) r = &P;
    vp_check(cry_ecp_dbl(r, &P, &G) == 0, "returns success");
    ispt(r, md(2 * i), "double of a point");
}
#ifdef STUB_EC
/* the point arithmetic, by the index of the point; under the engine the point is its index */
static V pidx(const cry_ecp *p)
{
#ifdef INDEX
    return p->z.used ? mv(&p->x) : 0;
#endif
    V r = 0;
    int k;
    if (!p->z.used) return 0;
    for (k = 1; k < cv[c].n; k++) r = mv(&p->x) == cv[c].x[k] && mv(&p->y) == cv[c].y[k] ? (V)k : r;
    return r;
}
static int pput(cry_ecp *p, V i)
{
#ifdef INDEX
    put(&p->x, i); put(&p->y, i); put(&p->z, i != 0);
    return 0;
#endif
    put(&p->x, px(i)); put(&p->y, py(i)); put(&p->z, i != 0);
    return 0;
}
int vp_stub_cry_ecp_add(cry_ecp *r, const cry_ecp *p, const cry_ecp *q, const cry_ecp_grp *g) { return pput(r, md(pidx(p) + pidx(q))); }
int vp_stub_cry_ecp_dbl(cry_ecp *r, const cry_ecp *p, const cry_ecp_grp *g) { return pput(r, md(2 * pidx(p))); }
#endif
/* arg: curve, index of the point (99: any), bits of the factor, in place */
void t_ecmul(void)
{
    V i, k = vp_u32();
    cry_ecp P, R, *r = &R;
    cry_mpi e;
    setup(vp_arg(0));
    i = vp_arg(1) == 99 ? idx() : (V)vp_arg(1);
    vp_assume(k >= 0 && k < (V)1 << vp_arg(2));
    point(&P, i);
    mset(&e, k);
    cry_ecp_init(&R);
    if (vp_arg(3)) r = &P;
    vp_check(cry_ecp_mul(r, &P, &e, &G) == 0, "returns success");
    ispt(r, md(i * k), "multiple of a point");
    vp_check(mis(&e, k), "factor unchanged");
}
/* two digit factor with symbolic bits around the boundary of the digits; arg: curve, in place */
void t_ecmul2(void)
{
    unsigned long h = vp_u8(), l = vp_u8(), m = vp_u8(), d[2], n, e;
    cry_ecp P, R, *r = &R;
    cry_mpi k;
    setup(vp_arg(0));
    n = cv[c].n;
    vp_assume(h > 0 && h < 8 && l < 8 && m < 4);
    d[1] = h;
    d[0] = l << 61 | m;
    k.sign = 0; k.alloc = 2; k.used = 2; k.data = d;
    e = (unsigned long)md((V)h * (V)(((unsigned long)-1 % n + 1) % n) + (V)l * (V)((1ul << 61) % n) + (V)m);
    point(&P, 1);
    cry_ecp_init(&R);
    if (vp_arg(1)) r = &P;
    vp_check(cry_ecp_mul(r, &P, &k, &G) == 0, "returns success");
    ispt(r, (V)e, "multiple of a point");
    vp_check(k.used == 2 && d[1] == h && d[0] == (l << 61 | m), "factor unchanged");
}

#ifdef ECDSA
/* signatures; the source is compiled here with the random numbers replaced by arbitrary ones */
int vp_stub_cry_ecp_mul(cry_ecp *r, const cry_ecp *p, const cry_mpi *k, const cry_ecp_grp *g) { return pput(r, md(pidx(p) * md(mv(k)))); }
static int ndraw;
static unsigned char draw[2], msg[12];
static int h_rand_range(cry_mpi *r, const cry_mpi *n)
{
    vp_assume(ndraw < 2);
    cry_mpi_digit d = draw[ndraw++];
    vp_assume(d < n->data[0]);
    if (cry_mpi_grow(r, 1) != 0) abort();
    r->data[0] = d; r->used = d != 0; r->sign = 0;
    return 0;
}
#define cry_mpi_rand_range h_rand_range
#define cry_ecdsa_sign h_ecdsa_sign
#define cry_ecdsa_verify h_ecdsa_verify
#define cry_ecdsa_init h_ecdsa_init
#define cry_ecdsa_clear h_ecdsa_clear
#define cry_ecdsa_keygen h_ecdsa_keygen
#include "crypt/ecdsa.c"
static cry_ecdsa_ctx C;
static V N;
static int D;
static void esetup(void)
{
    vp_sym(draw, 2); vp_sym(msg, sizeof(msg));
    setup(vp_arg(0));
    N = cv[c].n; D = vp_arg(1);
    C.grp = G;
    mset(&C.d, D);
    point(&C.q, D);
}
static int valid(V r, V s, V z)
{
    V w, e;
    if (r <= 0 || r >= N || s <= 0 || s >= N) return 0;
    w = minv(s, N);
    e = (z * w + (V)D * (r * w % N)) % N;
    return e != 0 && px(e) % N == r;
}
static V hash(size_t len) { return len ? (V)msg[0] : (V)0; }
static V small(int max) { unsigned char x = vp_u8(); vp_assume(x <= max); return x; }
/* arg: curve, private key, length of the message, sign of r, s */
void t_verify(void)
{
    V r = small(40), s = small(40);
    cry_ecdsa_sig S;
    int res;
    esetup();
    if (vp_arg(3) & 1) r = -r;
    if (vp_arg(3) & 2) s = -s;
    mset(&S.r, r); mset(&S.s, s);
    res = h_ecdsa_verify(&C, &S, msg, vp_arg(2));
    vp_check((res == 0) == valid(r, s, hash(vp_arg(2))), "accepted if and only if valid");
    vp_check(mis(&S.r, r) && mis(&S.s, s), "signature unchanged");
}
void t_sign(void)
{
    V r, s;
    cry_ecdsa_sig S;
    esetup();
    cry_mpi_init_list(&S.r, &S.s, (cry_mpi *)NULL);
    vp_check(h_ecdsa_sign(&C, &S, msg, vp_arg(2)) == 0, "signs");
    r = mv(&S.r); s = mv(&S.s);
    vp_check(mis(&S.r, r) && mis(&S.s, s), "normal form");
    vp_check(valid(r, s, hash(vp_arg(2))), "signature is valid");
    vp_check(ndraw > 0, "secret is drawn at random");
}
void t_keygen(void)
{
    esetup();
    vp_check(h_ecdsa_keygen(&C) == 0, "generates a key");
    vp_check(ndraw > 0 && mv(&C.d) > 0 && mv(&C.d) < N, "private key in range");
    ispt(&C.q, mv(&C.d), "public key");
}
#endif
