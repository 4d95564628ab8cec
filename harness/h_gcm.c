#include "absciph.h"
#include <cry/gcm.h>

/* SP 800-38D; blocks are bit strings, most significant bit first */
static void ref_gmul(unsigned char *x, const unsigned char *h)
{
    uint32_t z[4] = { 0 }, v[4], lsb;
    int i, j;
    for (j = 0; j < 4; j++)
        v[j] = (uint32_t)x[4 * j] << 24 | (uint32_t)x[4 * j + 1] << 16 | (uint32_t)x[4 * j + 2] << 8 | x[4 * j + 3];
    for (i = 0; i < 128; i++) {
        if ((h[i / 8] >> (7 - i % 8)) & 1)
            z[0] ^= v[0], z[1] ^= v[1], z[2] ^= v[2], z[3] ^= v[3];
        lsb = v[3] & 1;
        for (j = 3; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 31;
        v[0] = v[0] >> 1 ^ (-lsb & 0xe1000000u);
    }
    for (j = 0; j < 16; j++) x[j] = z[j / 4] >> (24 - 8 * (j % 4));
}
static void ref_ghash(unsigned char *y, const unsigned char *h, const unsigned char *d, size_t n)
{
    size_t i, j;
    for (i = 0; i < n; i += 16) {
        for (j = 0; j < 16 && i + j < n; j++) y[j] ^= d[i + j];
        ref_gmul(y, h);
    }
}
static void ref_len(unsigned char *y, const unsigned char *h, uint64_t a, uint64_t c)
{
    unsigned char b[16];
    int i;
    a <<= 3; c <<= 3;
    for (i = 0; i < 8; i++) { b[7 - i] = a >> (8 * i); b[15 - i] = c >> (8 * i); }
    ref_ghash(y, h, b, 16);
}
static void ref_inc(unsigned char *c)
{
    int i;
    for (i = 15; i >= 12; i--) if (++c[i] != 0) break;
}

/* an arbitrary cipher whose hash key (the first block encrypted with a new key, the zero block) is one of three constants */
static int hs_left, hs_sel;
static const unsigned char hs_tab[3][16] = {
    { 0x66, 0xe9, 0x4b, 0xd4, 0xef, 0x8a, 0x2c, 0x3b, 0x88, 0x4c, 0xfa, 0x59, 0xca, 0x34, 0x2b, 0x2e },
    { 0x80 },
    { 0xb8, 0x3b, 0x53, 0x37, 0x08, 0xbf, 0x53, 0x5d, 0x0a, 0xa6, 0xe5, 0x29, 0x80, 0xd5, 0x3b, 0x79 } };
static void hc_key_set(void *p, const unsigned char *key, size_t n) { ac_key_set(p, key, n); hs_left = 1; }
static void hc_encrypt(void *p, unsigned char *d, const unsigned char *s, size_t n)
{
    if (hs_left && n == 16) {
        static const unsigned char z[16];
        vp_check_eq(s, z, 16, "the hash key is the encryption of zero");
        memcpy(d, hs_tab[hs_sel], 16);
        hs_left = 0;
        return;
    }
    ac_encrypt(p, d, s, n);
}
static const cry_ciph_itf hc_itf = { ac_init, ac_clear, hc_key_set, hc_encrypt, ac_decrypt };

/* arg: iv length, first and second piece of additional data, first and second piece of data, decrypt, in place, tag length,
 *      counter: 0 as derived, 1 low word near the wrap, 2 context used twice,
 *      3 derived, without carry out of the low byte; hash key */
void t_gcm(void)
{
    int nv = vp_arg(0), a1 = vp_arg(1), a2 = vp_arg(2), n1 = vp_arg(3), n2 = vp_arg(4), dec = vp_arg(5), ip = vp_arg(6), nt = vp_arg(7), wrap = vp_arg(8);
    hs_sel = vp_arg(9);
    int n = n1 + n2, na = a1 + a2, i, k;
    ac_ctx cc, rc;
    cry_gcm_ctx c;
    unsigned char key[16], iv[nv + 1], aad[na + 1], in[n + 1], out[n + 1], want[n + 1], tag[18], wt[16], h[16], j0[16], ctr[16], ks[16], y[16];
    vp_sym(key, 16); vp_sym(iv, nv); vp_sym(aad, na); vp_sym(in, n);
    ac_init(&rc); ac_key_set(&rc, key, 16);
    memset(&cc, 0x11, sizeof(cc));
    memset(&c, 0x77, sizeof(c));
    cry_gcm_init(&c, &cc, &hc_itf);
    cry_gcm_key_set(&c, key, 16);
    for (k = 0; k < (wrap == 2 ? 2 : 1); k++) {
        /* wrap == 2: the context is used twice, the second message must not depend on the first one */
        if (k == 1) { vp_sym(iv, nv); vp_sym(in, n); }
        memcpy(h, hs_tab[hs_sel], 16);
        if (nv == 12) {
            memcpy(j0, iv, 12); j0[12] = j0[13] = j0[14] = 0; j0[15] = 1;
        } else {
            memset(j0, 0, 16);
            ref_ghash(j0, h, iv, nv);
            ref_len(j0, h, 0, nv);
            if (wrap == 3) { vp_assume(j0[15] != 0xff); vp_assume(j0[15] != 0xfe); vp_assume(j0[15] != 0xfd); }
        }
        memcpy(ctr, j0, 16);
        ref_inc(ctr);
        cry_gcm_iv_set(&c, iv, nv);
        if (wrap == 1) {
            memset(ctr + 12, 0xff, 4);
            memset(c.ctr + 12, 0xff, 4);
        }
        for (i = 0; i < n; i++) {
            if (i % 16 == 0) { ac_one(0, &rc, ks, ctr); ref_inc(ctr); }
            want[i] = in[i] ^ ks[i % 16];
        }
        memset(y, 0, 16);
        ref_ghash(y, h, aad, na);
        ref_ghash(y, h, dec ? in : want, n);
        ref_len(y, h, na, n);
        ac_one(0, &rc, ks, j0);
        for (i = 0; i < 16; i++) wt[i] = y[i] ^ ks[i];
        memset(out, 0x5a, n + 1);
        if (ip) memcpy(out, in, n);
        cry_gcm_update(&c, aad, a1);
        if (a2) cry_gcm_update(&c, aad + a1, a2);
        (dec ? cry_gcm_decrypt : cry_gcm_encrypt)(&c, out, ip ? out : in, n1);
        if (n2) (dec ? cry_gcm_decrypt : cry_gcm_encrypt)(&c, out + n1, ip ? out + n1 : in + n1, n2);
        memset(tag, 0xa5, sizeof(tag));
        cry_gcm_digest(&c, tag + 1, nt);
        vp_check_eq(out, want, n, "GCM data");
        vp_check(out[n] == 0x5a, "nothing is written after the data");
        vp_check_eq(tag + 1, wt, nt, "GCM tag");
        vp_check(tag[0] == 0xa5 && tag[nt + 1] == 0xa5, "nothing is written outside the tag");
    }
    cry_gcm_clear(&c);
    vp_check(cc.live == 0, "clear reaches the cipher");
    for (i = 0; i < 16; i++) vp_check(c.key[i] == 0 && c.hs[i] == 0, "clear wipes the context");
}

/* the lengths authenticated are the 64-bit numbers of bits, however much was processed before */
void t_len(void)
{
    int n = vp_arg(0), i;
    ac_ctx cc, rc;
    cry_gcm_ctx c;
    uint64_t la = vp_u64(), lc = vp_u64();
    unsigned char key[16], iv[12], in[n + 1], h[16], y[16], j0[16], ks[16], tag[16], wt[16], out[n + 1];
    vp_sym(key, 16); vp_sym(iv, 12); vp_sym(in, n);
    vp_assume((la & 15) == 0 && (lc & 15) == 0 && la >> 60 == 0 && lc >> 60 == 0);
    ac_init(&rc); ac_key_set(&rc, key, 16);
    memset(h, 0, 16);
    ac_one(0, &rc, h, h);
    cry_gcm_init(&c, &cc, &ac_itf);
    cry_gcm_key_set(&c, key, 16);
    cry_gcm_iv_set(&c, iv, 12);
    vp_sym(y, 16);
    memcpy(c.hs, y, 16);          /* hash state after la and lc bytes */
    c.auth_len = la; c.ciph_len = lc;
    cry_gcm_decrypt(&c, out, in, n);
    cry_gcm_digest(&c, tag, 16);
    ref_ghash(y, h, in, n);
    ref_len(y, h, la, lc + n);
    memcpy(j0, iv, 12); j0[12] = j0[13] = j0[14] = 0; j0[15] = 1;
    ac_one(0, &rc, ks, j0);
    for (i = 0; i < 16; i++) wt[i] = y[i] ^ ks[i];
    vp_check_eq(tag, wt, 16, "GCM tag of a long message");
}
