/* FIPS-197, byte oriented, written from the standard. */
#ifndef REF_AES_H_
#define REF_AES_H_
#include <string.h>
static unsigned char ra_s[256], ra_i[256], ra_2[256], ra_3[256], ra_9[256], ra_b[256], ra_d[256], ra_e[256];
static int ra_ready;
static unsigned char ra_mul(unsigned char a, unsigned char b)
{
    unsigned char r = 0;
    while (b) {
        if (b & 1) r ^= a;
        a = (unsigned char)((a << 1) ^ ((a & 0x80) ? 0x1b : 0));
        b >>= 1;
    }
    return r;
}
static void ra_setup(void)
{
    int i, k;
    unsigned char p = 1, q = 1, alog[256], log[256];
    if (ra_ready) return;
    ra_ready = 1;
    for (i = 0; i < 255; i++) {     /* powers of the generator 3 */
        alog[i] = p; log[p] = (unsigned char)i;
        p = (unsigned char)(p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0));
    }
    (void)q;
    for (i = 0; i < 256; i++) {
        unsigned char x = i ? alog[(255 - log[i]) % 255] : 0, s = 0;
        for (k = 0; k < 8; k++) {
            int b = (x >> k) ^ (x >> ((k + 4) & 7)) ^ (x >> ((k + 5) & 7)) ^ (x >> ((k + 6) & 7)) ^
                    (x >> ((k + 7) & 7)) ^ (0x63 >> k);
            s |= (unsigned char)((b & 1) << k);
        }
        ra_s[i] = s;
        ra_i[s] = (unsigned char)i;
    }
    for (i = 0; i < 256; i++) {
        ra_2[i] = ra_mul(i, 2); ra_3[i] = ra_mul(i, 3); ra_9[i] = ra_mul(i, 9);
        ra_b[i] = ra_mul(i, 11); ra_d[i] = ra_mul(i, 13); ra_e[i] = ra_mul(i, 14);
    }
}
typedef struct { unsigned char w[60][4]; int nr; } ref_aes;
static void ref_aes_key(ref_aes *c, const unsigned char *key, int klen)
{
    int nk = klen / 4, i, j;
    unsigned char t[4], rc = 1, x;
    ra_setup();
    c->nr = nk + 6;
    for (i = 0; i < nk; i++)
        memcpy(c->w[i], key + 4 * i, 4);
    for (i = nk; i < 4 * (c->nr + 1); i++) {
        memcpy(t, c->w[i - 1], 4);
        if (i % nk == 0) {
            x = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = x;
            for (j = 0; j < 4; j++) t[j] = ra_s[t[j]];
            t[0] ^= rc;
            rc = ra_mul(rc, 2);
        } else if (nk > 6 && i % nk == 4) {
            for (j = 0; j < 4; j++) t[j] = ra_s[t[j]];
        }
        for (j = 0; j < 4; j++) c->w[i][j] = c->w[i - nk][j] ^ t[j];
    }
}
static void ra_ark(unsigned char *s, ref_aes *c, int r)
{
    int i;
    for (i = 0; i < 16; i++) s[i] ^= c->w[4 * r + i / 4][i % 4];
}
static void ref_aes_enc(ref_aes *c, unsigned char *dst, const unsigned char *src)
{
    unsigned char s[16], t[16];
    int r, i, k;
    memcpy(s, src, 16);
    ra_ark(s, c, 0);
    for (r = 1; r <= c->nr; r++) {
        for (i = 0; i < 16; i++)            /* SubBytes, ShiftRows */
            t[i] = ra_s[s[(i + 4 * (i % 4)) % 16]];
        for (k = 0; k < 16; k += 4) {
            if (r == c->nr) { memcpy(s + k, t + k, 4); continue; }
            s[k] = ra_2[t[k]] ^ ra_3[t[k+1]] ^ t[k+2] ^ t[k+3];
            s[k+1] = t[k] ^ ra_2[t[k+1]] ^ ra_3[t[k+2]] ^ t[k+3];
            s[k+2] = t[k] ^ t[k+1] ^ ra_2[t[k+2]] ^ ra_3[t[k+3]];
            s[k+3] = ra_3[t[k]] ^ t[k+1] ^ t[k+2] ^ ra_2[t[k+3]];
        }
        ra_ark(s, c, r);
    }
    memcpy(dst, s, 16);
}
static void ref_aes_dec(ref_aes *c, unsigned char *dst, const unsigned char *src)
{
    unsigned char s[16], t[16];
    int r, i, k;
    memcpy(s, src, 16);
    ra_ark(s, c, c->nr);
    for (r = c->nr - 1; r >= 0; r--) {
        for (i = 0; i < 16; i++)
            t[(i + 4 * (i % 4)) % 16] = ra_i[s[i]];
        ra_ark(t, c, r);
        for (k = 0; k < 16; k += 4) {
            if (r == 0) { memcpy(s + k, t + k, 4); continue; }
            s[k] = ra_e[t[k]] ^ ra_b[t[k+1]] ^ ra_d[t[k+2]] ^ ra_9[t[k+3]];
            s[k+1] = ra_9[t[k]] ^ ra_e[t[k+1]] ^ ra_b[t[k+2]] ^ ra_d[t[k+3]];
            s[k+2] = ra_d[t[k]] ^ ra_9[t[k+1]] ^ ra_e[t[k+2]] ^ ra_b[t[k+3]];
            s[k+3] = ra_b[t[k]] ^ ra_d[t[k+1]] ^ ra_9[t[k+2]] ^ ra_e[t[k+3]];
        }
    }
    memcpy(dst, s, 16);
}
#endif
