/* An arbitrary block cipher behind the library's cipher interface: for every
 * key an arbitrary permutation of the blocks. */
#ifndef ABSCIPH_H_
#define ABSCIPH_H_
#include "vp.h"
#include <cry/ciph.h>
#include <string.h>
static size_t ac_bs = 16;
typedef struct { unsigned char key[32]; size_t klen; int live; } ac_ctx;
static void ac_init(void *p) { ac_ctx *c = p; memset(c, 0, sizeof(*c)); c->live = 1; }
static void ac_clear(void *p) { ac_ctx *c = p; memset(c, 0, sizeof(*c)); }
static void ac_key_set(void *p, const unsigned char *key, size_t n)
{
    ac_ctx *c = p;
    vp_check(n <= 32, "key length given to the cipher");
    memcpy(c->key, key, n);
    c->klen = n;
}
static void ac_one(int dir, ac_ctx *c, unsigned char *d, const unsigned char *s)
{
    unsigned char t[16], o[16];
    memcpy(t, s, ac_bs);
    vp_perm(dir, c->key, c->klen, t, o, ac_bs);
    memcpy(d, o, ac_bs);
}
static void ac_encrypt(void *p, unsigned char *d, const unsigned char *s, size_t n)
{
    for (; n >= ac_bs; n -= ac_bs, d += ac_bs, s += ac_bs) ac_one(0, p, d, s);
    vp_check(n == 0, "the cipher is given whole blocks");
}
static void ac_decrypt(void *p, unsigned char *d, const unsigned char *s, size_t n)
{
    for (; n >= ac_bs; n -= ac_bs, d += ac_bs, s += ac_bs) ac_one(1, p, d, s);
    vp_check(n == 0, "the cipher is given whole blocks");
}
static const cry_ciph_itf ac_itf = { ac_init, ac_clear, ac_key_set, ac_encrypt, ac_decrypt };
#endif
