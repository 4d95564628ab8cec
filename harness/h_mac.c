#include "absciph.h"
#include <cry/cmac.h>
#include <cry/hmac.h>

/* RFC 4493 / SP 800-38B over an arbitrary 128-bit block cipher. arg: three piece lengths, key length */
static void dbl(unsigned char *o, const unsigned char *a)
{
    int i, c = a[0] >> 7;
    for (i = 0; i < 15; i++) o[i] = a[i] << 1 | a[i + 1] >> 7;
    o[15] = (a[15] << 1) ^ (-c & 0x87);
}
void t_cmac(void)
{
    int n1 = vp_arg(0), n2 = vp_arg(1), n3 = vp_arg(2), nk = vp_arg(3), n = n1 + n2 + n3, i, j, m, again;
    ac_ctx cc, rc;
    cry_cmac_ctx c;
    unsigned char key[32], msg[n + 1], mac[18], x[16], l[16], k1[16], k2[16], t[16];
    vp_sym(key, nk);
    ac_init(&cc); ac_init(&rc);
    ac_key_set(&rc, key, nk);
    memset(&c, 0x77, sizeof(c));
    for (again = 0; again < 2; again++) {
        vp_sym(msg, n);
        cry_cmac_init(&c, &cc, &ac_itf, key, nk);
        cry_cmac_update(&c, msg, n1);
        cry_cmac_update(&c, msg + n1, n2);
        cry_cmac_update(&c, msg + n1 + n2, n3);
        memset(mac, 0xa5, 18);
        cry_cmac_digest(&c, mac + 1);
        memset(l, 0, 16);
        ac_one(0, &rc, l, l);
        dbl(k1, l); dbl(k2, k1);
        memset(x, 0, 16);
        m = n ? (n + 15) / 16 : 1;
        for (i = 0; i < m; i++) {
            for (j = 0; j < 16; j++) {
                int o = 16 * i + j;
                t[j] = o < n ? msg[o] : o == n ? 0x80 : 0;
                if (i == m - 1) t[j] ^= (n && n % 16 == 0) ? k1[j] : k2[j];
                t[j] ^= x[j];
            }
            ac_one(0, &rc, x, t);
        }
        vp_check_eq(mac + 1, x, 16, "CMAC");
        vp_check(mac[0] == 0xa5 && mac[17] == 0xa5, "nothing is written outside the MAC");
    }
}

/* HMAC (RFC 2104) over an arbitrary hash with 64-byte blocks: the digest is a function of the bytes hashed since init */
typedef struct { unsigned char b[640]; size_t n; size_t dl; } ah_ctx;
static size_t ah_len;
static void ah_init(void *p) { ah_ctx *c = p; c->n = 0; c->dl = ah_len; }
static void ah_clear(void *p) { ah_ctx *c = p; memset(c->b, 0x33, sizeof(c->b)); c->dl = 0; c->n = 1; }
static void ah_update(void *p, const unsigned char *d, size_t n)
{
    ah_ctx *c = p;
    vp_check(c->n + n <= sizeof(c->b), "amount of data hashed");
    memcpy(c->b + c->n, d, n);
    c->n += n;
}
static void ah_digest(void *p, unsigned char *o) { ah_ctx *c = p; vp_uf("H", c->b, c->n, o, ah_len); }
static const cry_hash_itf ah_itf = { ah_init, ah_clear, ah_update, ah_digest };

/* arg: digest length, key length, two piece lengths */
void t_hmac(void)
{
    int hl = vp_arg(0), nk = vp_arg(1), n1 = vp_arg(2), n2 = vp_arg(3), n = n1 + n2, i, again;
    cry_hmac_ctx c;
    ah_ctx hc;
    unsigned char key[nk + 1], msg[n + 1], k0[64], in[64 + n], out[64 + hl], mac[hl + 2], want[hl], keep[nk + 1];
    ah_len = hl;
    vp_sym(key, nk);
    memcpy(keep, key, nk);
    memset(&c, 0x77, sizeof(c));
    memset(k0, 0, 64);
    if (nk <= 64) memcpy(k0, key, nk); else vp_uf("H", key, nk, k0, hl);
    for (again = 0; again < 2; again++) {
        vp_sym(msg, n);
        cry_hmac_init(&c, &hc, &ah_itf, hl, key, nk);
        cry_hmac_update(&c, msg, n1);
        cry_hmac_update(&c, msg + n1, n2);
        memset(mac, 0xa5, hl + 2);
        cry_hmac_digest(&c, mac + 1);
        for (i = 0; i < 64; i++) { in[i] = k0[i] ^ 0x36; out[i] = k0[i] ^ 0x5c; }
        memcpy(in + 64, msg, n);
        vp_uf("H", in, 64 + n, out + 64, hl);
        vp_uf("H", out, 64 + hl, want, hl);
        vp_check_eq(mac + 1, want, hl, "HMAC");
        vp_check(mac[0] == 0xa5 && mac[hl + 1] == 0xa5, "nothing is written outside the MAC");
        vp_check_eq(key, keep, nk, "the key is not modified");
    }
}
