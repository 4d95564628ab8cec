#include "vp.h"
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <string.h>

static unsigned char rs[256], rx, ry;
static void ref_ksa(const unsigned char *key, int n)
{
    int i;
    unsigned char j = 0, t;
    for (i = 0; i < 256; i++) rs[i] = i;
    for (i = 0; i < 256; i++) {
        j = j + rs[i] + key[i % n];
        t = rs[i]; rs[i] = rs[j]; rs[j] = t;
    }
    rx = ry = 0;
}
static unsigned char ref_prga(void)
{
    unsigned char a, b;
    rx++;
    a = rs[rx];
    ry += a;
    b = rs[ry];
    rs[rx] = b; rs[ry] = a;
    return rs[(unsigned char)(a + b)];
}
/* arg: key length, number of leading constant key bytes, data lengths of two calls, in place */
void t_arc4(void)
{
    int nk = vp_arg(0), nc = vp_arg(1), n1 = vp_arg(2), n2 = vp_arg(3), ip = vp_arg(4), n = n1 + n2, i;
    cry_arc4_ctx c;
    unsigned char key[nk], in[n + 1], out[n + 2], want[n + 1];
    for (i = 0; i < nc; i++) key[i] = 17 * i + 5;
    vp_sym(key + nc, nk - nc);
    vp_sym(in, n);
    memset(&c, 0x77, sizeof(c));
    cry_arc4_init(&c);
    cry_arc4_key_set(&c, key, nk);
    memset(out, 0xa5, n + 2);
    if (ip) memcpy(out, in, n);
    cry_arc4_crypt(&c, out, ip ? out : in, n1);
    cry_arc4_crypt(&c, out + n1, ip ? out + n1 : in + n1, n2);
    ref_ksa(key, nk);
    for (i = 0; i < n; i++) want[i] = in[i] ^ ref_prga();
    vp_check_eq(out, want, n, "ARC4");
    vp_check(out[n] == 0xa5, "nothing is written after the data");
    /* the same key again restarts the stream */
    cry_arc4_key_set(&c, key, nk);
    if (n) {
        cry_arc4_crypt(&c, out, in, 1);
        vp_check(out[0] == want[0], "setting the key restarts the stream");
    }
}
/* arbitrary permutation state and indices: arg: data lengths of two calls */
void t_arc4s(void)
{
    int n1 = vp_arg(0), n2 = vp_arg(1), n = n1 + n2, i;
    cry_arc4_ctx c;
    unsigned char in[n + 1], out[n + 2], want[n + 1];
    vp_sym(rs, 256);
    rx = vp_arg(2);
    ry = vp_u8();
    vp_sym(in, n);
    cry_arc4_init(&c);
    memcpy(c.s, rs, 256);
    c.x = rx; c.y = ry;
    cry_arc4_crypt(&c, out, in, n1);
    cry_arc4_crypt(&c, out + n1, in + n1, n2);
    for (i = 0; i < n; i++) want[i] = in[i] ^ ref_prga();
    vp_check_eq(out, want, n, "ARC4 from any state");
}

/* Trivium, one bit per clock; state bits 1..288 of the specification */
static unsigned char tv[289];
static int tv_clock(void)
{
    int t1 = tv[66] ^ tv[93], t2 = tv[162] ^ tv[177], t3 = tv[243] ^ tv[288], z = t1 ^ t2 ^ t3, i;
    t1 ^= (tv[91] & tv[92]) ^ tv[171];
    t2 ^= (tv[175] & tv[176]) ^ tv[264];
    t3 ^= (tv[286] & tv[287]) ^ tv[69];
    for (i = 288; i > 1; i--) tv[i] = tv[i - 1];
    tv[1] = t3; tv[94] = t1; tv[178] = t2;
    return z;
}
static int bit(const unsigned char *p, int i) { return p[i / 8] >> (i % 8) & 1; }
/* arg: data lengths of two calls (whole words but the last), in place */
void t_trivs(void)
{
    int n1 = vp_arg(0), n2 = vp_arg(1), ip = vp_arg(2), n = n1 + n2, i, j;
    cry_trivium_ctx c;
    unsigned char s[40], in[n + 1], out[n + 2], want[n + 1];
    vp_sym(s, 40);
    vp_sym(in, n);
    cry_trivium_init(&c);
    memcpy(c.s, s, 40);
    /* registers of 93, 84 and 111 bits, in words of 32 bits: bit 1 is the low bit */
    for (i = 0; i < 93; i++) tv[1 + i] = bit(s, i);
    for (i = 0; i < 84; i++) tv[94 + i] = bit(s + 12, i);
    for (i = 0; i < 111; i++) tv[178 + i] = bit(s + 24, i);
    memset(out, 0xa5, n + 2);
    if (ip) memcpy(out, in, n);
    cry_trivium_crypt(&c, out, ip ? out : in, n1);
    cry_trivium_crypt(&c, out + n1, ip ? out + n1 : in + n1, n2);
    vp_check(out[n] == 0xa5, "nothing is written after the data");
    for (i = 0; i < n; ) {
        /* 32 clocks give a word, first bit highest, stored in little endian order; a call starts with a new word */
        uint32_t z = 0;
        for (j = 0; j < 32; j++) z = z << 1 | tv_clock();
        for (j = 0; j < 4 && i < n; j++) {
            if (i == n1 && j) break;
            want[i] = in[i] ^ (unsigned char)(z >> (8 * j));
            i++;
        }
    }
    vp_check_eq(out, want, n, "Trivium from any state, clock by clock");
}
typedef unsigned __int128 u128;
static u128 A, B, C;
static uint32_t tv_word(void)
{
    /* 32 clocks at once: bit i of the registers is state bit i+1, newest bit lowest; taps are at least 66 bits away */
    uint32_t t1, t2, t3, z;
#define W(R, k) ((uint32_t)((R) >> ((k) - 32)))
    t1 = W(A, 66) ^ W(A, 93);
    t2 = W(B, 69) ^ W(B, 84);
    t3 = W(C, 66) ^ W(C, 111);
    z = t1 ^ t2 ^ t3;
    t1 ^= (W(A, 91) & W(A, 92)) ^ W(B, 78);
    t2 ^= (W(B, 82) & W(B, 83)) ^ W(C, 87);
    t3 ^= (W(C, 109) & W(C, 110)) ^ W(A, 69);
    A = A << 32 | t3; B = B << 32 | t1; C = C << 32 | t2;
    return z;
}
/* arg: key length, iv length, data lengths of two calls, in place */
void t_triv(void)
{
    int nk = vp_arg(0), nv = vp_arg(1), n1 = vp_arg(2), n2 = vp_arg(3), ip = vp_arg(4), n = n1 + n2, i, j, pass;
    cry_trivium_ctx c;
    unsigned char key[16], iv[16], in[n + 1], out[n + 2], want[n + 1];
    uint32_t z;
    memset(key, 0, 16); memset(iv, 0, 16);
    vp_sym(key, nk);
    vp_sym(in, n);
    memset(&c, 0x77, sizeof(c));
    cry_trivium_init(&c);
    cry_trivium_key_set(&c, key, nk);
    for (pass = 0; pass < 2; pass++) {
        /* a second IV restarts with the same key */
        vp_sym(iv, nv);
        cry_trivium_iv_set(&c, iv, nv);
        memset(out, 0xa5, n + 2);
        if (ip) memcpy(out, in, n);
        cry_trivium_crypt(&c, out, ip ? out : in, n1);
        cry_trivium_crypt(&c, out + n1, ip ? out + n1 : in + n1, n2);
        A = B = C = 0;
        for (i = 9; i >= 0; i--) { A = A << 8 | key[i]; B = B << 8 | iv[i]; }
        C = (u128)7 << 108;
        /* spec: 4 * 288 clocks; registers are indexed from the newest bit, as shifted in at the low end */
        for (i = 0; i < 36; i++) tv_word();
        for (i = 0; i < n; ) {
            z = tv_word();
            for (j = 0; j < 4 && i < n; j++) {
                if (i == n1 && j) break;
                want[i] = in[i] ^ (unsigned char)(z >> (8 * j));
                i++;
            }
        }
        vp_check_eq(out, want, n, "Trivium");
        vp_check(out[n] == 0xa5, "nothing is written after the data");
    }
}
