/* AES key wrap and the random generators. AES is an arbitrary keyed permutation (it has its own property). */
#include "vp.h"
#include <cry/aes.h>
#include <cry/utils.h>
#include <cry/prng.h>
#include <string.h>

/* the code under test, compiled here with the cipher below in place of AES */
#define cry_aes_key_set abs_key_set
#define cry_aes_encrypt abs_encrypt
#define cry_aes_decrypt abs_decrypt
#define cry_aes_wrap abs_wrap
#define cry_aes_unwrap abs_unwrap
#define cry_prng_aes_init abs_prng_init
#define cry_prng_aes_rand abs_prng_rand
void abs_key_set(cry_aes_ctx *ctx, const unsigned char *key, size_t size);
void abs_encrypt(cry_aes_ctx *ctx, unsigned char *dst, const unsigned char *src, size_t size);
void abs_decrypt(cry_aes_ctx *ctx, unsigned char *dst, const unsigned char *src, size_t size);
#include "utils/aes_wrap.c"
#undef BLOCK_SIZ
#include "prng/prng_aes.c"

void abs_key_set(cry_aes_ctx *ctx, const unsigned char *key, size_t size)
{
    memset(ctx->keys, 0, sizeof(ctx->keys));
    memcpy(ctx->keys, key, size);
    ctx->nr = size;
}
static void blocks(int dir, cry_aes_ctx *ctx, unsigned char *dst, const unsigned char *src, size_t size)
{
    unsigned char t[16];
    for (; size >= 16; size -= 16, dst += 16, src += 16) {
#ifdef LINEAR   /* one easy permutation, which finds counterexamples fast */
        unsigned char *k = (unsigned char *)ctx->keys;
        int i;
        for (i = 0; i < 16; i++)
            if (dir) t[(i + 5) % 16] = src[i] ^ k[i];
            else t[i] = src[(i + 5) % 16] ^ k[i];
#else
        vp_perm(dir, ctx->keys, ctx->nr, src, t, 16);
#endif
        memcpy(dst, t, 16);
    }
}
void abs_encrypt(cry_aes_ctx *ctx, unsigned char *dst, const unsigned char *src, size_t size) { blocks(0, ctx, dst, src, size); }
void abs_decrypt(cry_aes_ctx *ctx, unsigned char *dst, const unsigned char *src, size_t size) { blocks(1, ctx, dst, src, size); }

/* RFC 3394, 2.2.1 with indices */
static void ref_wrap(unsigned char *out, const unsigned char *in, size_t n, const unsigned char *key, size_t kl)
{
    cry_aes_ctx c;
    unsigned char b[16];
    size_t i, j, k;
    uint64_t t;
    cry_aes_key_set(&c, key, kl);
    for (i = 0; i < 8; i++) out[i] = 0xA6;
    for (i = 0; i < 8 * n; i++) out[8 + i] = in[i];
    for (j = 0; j < 6; j++)
        for (i = 1; i <= n; i++) {
            memcpy(b, out, 8);
            memcpy(b + 8, out + 8 * i, 8);
            cry_aes_encrypt(&c, b, b, 16);
            t = n * j + i;
            for (k = 0; k < 8; k++) out[k] = b[k] ^ (unsigned char)(t >> (56 - 8 * k));
            memcpy(out + 8 * i, b + 8, 8);
        }
}
/* the inverse; the recovered check value goes to a */
static void ref_unwrap(unsigned char *a, unsigned char *out, const unsigned char *in, size_t n, const unsigned char *key, size_t kl)
{
    cry_aes_ctx c;
    unsigned char b[16];
    size_t i, j, k;
    uint64_t t;
    cry_aes_key_set(&c, key, kl);
    memcpy(a, in, 8);
    memcpy(out, in + 8, 8 * n);
    for (j = 6; j-- > 0;)
        for (i = n; i >= 1; i--) {
            t = n * j + i;
            for (k = 0; k < 8; k++) b[k] = a[k] ^ (unsigned char)(t >> (56 - 8 * k));
            memcpy(b + 8, out + 8 * (i - 1), 8);
            cry_aes_decrypt(&c, b, b, 16);
            memcpy(a, b, 8);
            memcpy(out + 8 * (i - 1), b + 8, 8);
        }
}
/* arg: number of 8-byte blocks, key length, input inside the output buffer */
void t_wrap(void)
{
    size_t n = vp_arg(0), kl = vp_arg(1), i;
    unsigned char key[32], in[8 * n + 1], out[8 * n + 8 + 2], want[8 * n + 8], back[8 * n + 2];
    vp_sym(key, kl);
    vp_sym(in, 8 * n);
    ref_wrap(want, in, n, key, kl);
    memset(out, 0x5a, sizeof(out));
    if (vp_arg(2)) memcpy(out + 9, in, 8 * n);
    vp_check(cry_aes_wrap(out + 1, vp_arg(2) ? out + 9 : in, 8 * n, key, kl) == 0, "returns success");
    vp_check_eq(out + 1, want, 8 * n + 8, "wrapped key");
    vp_check(out[0] == 0x5a && out[8 * n + 9] == 0x5a, "only the wrapped key is written");
    memset(back, 0x5a, sizeof(back));
    vp_check(cry_aes_unwrap(back + 1, out + 1, 8 * n, key, kl) == 0, "a wrapped key is accepted");
    vp_check_eq(back + 1, in, 8 * n, "round trip");
    vp_check(back[0] == 0x5a && back[8 * n + 1] == 0x5a, "only the key is written");
    for (i = 0; i < 8 * n + 8; i++) vp_check(out[1 + i] == want[i], "wrapped key unchanged");
}
/* arg: number of 8-byte blocks, key length */
void t_unwrap(void)
{
    size_t n = vp_arg(0), kl = vp_arg(1), i;
    unsigned char key[32], in[8 * n + 8], a[8], want[8 * n], out[8 * n + 2];
    int ok = 1, res;
    vp_sym(key, kl);
    vp_sym(in, 8 * n + 8);
    ref_unwrap(a, want, in, n, key, kl);
    for (i = 0; i < 8; i++) ok &= a[i] == 0xA6;
    memset(out, 0x5a, sizeof(out));
    res = cry_aes_unwrap(out + 1, in, 8 * n, key, kl);
    vp_check(out[0] == 0x5a && out[8 * n + 1] == 0x5a, "only the key is written");
    vp_check((res == 0) == ok, "accepted exactly if the check value is right");
    if (res == 0) vp_check_eq(out + 1, want, 8 * n, "unwrapped key");
    else for (i = 0; i < 8 * n; i++) vp_check(out[1 + i] == 0, "no key data after a failed check");
}
/* arg: length that is not a positive multiple of 8 */
void t_wraplen(void)
{
    size_t n = vp_arg(0);
    unsigned char key[16], in[64], out[64];
    vp_sym(key, 16);
    vp_sym(in, sizeof(in));
    memset(out, 0x5a, sizeof(out));
    vp_check(cry_aes_wrap(out, in, n, key, 16) == -1, "length refused");
    vp_check(cry_aes_unwrap(out, in, n, key, 16) == -1, "length refused");
}
static void inc(unsigned char *c)
{
    int i, cy = 1;
    for (i = 15; i >= 0; i--) { cy += c[i]; c[i] = cy; cy >>= 8; }
}
/* arg: seed size (1000: no seed), trailing 0xff bytes of the counter, then sizes of the requests (0 ends) */
void t_prng_aes(void)
{
    size_t n = vp_arg(0), ff = vp_arg(1), i, k, tot = 0, off = 0;
    unsigned char seed[64], key[16] = {0}, ctr[16] = {0}, want[256], got[258];
    cry_aes_ctx c;
    if (n == 1000) {
        vp_check(cry_prng_aes_init(NULL, 0) == 0, "returns success");
    } else {
        vp_sym(seed, n);
        for (i = 0; i < ff; i++) seed[31 - i] = 0xff;
        if (ff && ff < 16) vp_assume(seed[31 - ff] != 0xff);
        for (i = 0; i < n && i < 16; i++) key[i] = seed[i];
        for (i = 16; i < n && i < 32; i++) ctr[i - 16] = seed[i];
        vp_check(cry_prng_aes_init(seed, n) == 0, "returns success");
    }
    cry_aes_key_set(&c, key, 16);
    for (i = 2; vp_arg(i); i++) tot += vp_arg(i);
    for (k = 0; k < tot; k += 16) {
        cry_aes_encrypt(&c, want + k, ctr, 16);
        inc(ctr);
    }
    memset(got, 0x5a, sizeof(got));
    for (i = 2; vp_arg(i); i++) {
        vp_check(cry_prng_aes_rand(got + 1 + off, vp_arg(i)) == 0, "returns success");
        off += vp_arg(i);
        vp_check(got[0] == 0x5a && got[1 + off] == 0x5a, "only the requested bytes are written");
        vp_check(cry_prng_aes_rand(got + 1 + off, 0) == 0, "returns success");
    }
    vp_check_eq(got + 1, want, tot, "random bytes");
    /* seeding again restarts */
    if (n != 1000) {
        vp_check(cry_prng_aes_init(seed, n) == 0, "returns success");
        vp_check(cry_prng_aes_rand(got + 1, 5) == 0, "returns success");
        vp_check_eq(got + 1, want, 5, "random bytes after seeding again");
    }
}
/* the generator before any seeding */
void t_prng_noseed(void)
{
    unsigned char a[40], b[40], c[40], d[40];
    cry_prng_aes_rand(a, 40);
    cry_prng_aes_init(NULL, 0);
    cry_prng_aes_rand(b, 40);
    vp_check_eq(a, b, 40, "the default seed");
    cry_prng_lfsr113_rand(c, 40);
    cry_prng_lfsr113_init(NULL, 0);
    cry_prng_lfsr113_rand(d, 40);
    vp_check_eq(c, d, 40, "the default seed");
}
static uint32_t zz[4];
/* one step of LFSR113 (L'Ecuyer 1999, figure 1) */
static uint32_t ref113(void)
{
    static const int q[4] = {6, 2, 13, 3}, s[4] = {18, 2, 7, 13}, r[4] = {13, 27, 21, 12}, k[4] = {31, 29, 28, 25};
    uint32_t o = 0, b;
    int i;
    for (i = 0; i < 4; i++) {
        b = ((zz[i] << q[i]) ^ zz[i]) >> r[i];
        zz[i] = ((zz[i] >> (32 - k[i]) << (32 - k[i])) << s[i]) ^ b;
        o ^= zz[i];
    }
    return o;
}
/* arg: size of the seed, of an earlier seed, then sizes of the requests (0 ends) */
void t_prng_lfsr(void)
{
    static const uint32_t lo[4] = {1, 7, 15, 127};
    size_t n = vp_arg(0), m = vp_arg(1), i, j, k;
    unsigned char seed[64], old[64], x[16] = {0}, got[66];
    vp_sym(seed, n);
    if (m) {
        vp_sym(old, m);
        vp_check(cry_prng_lfsr113_init(old, m) == 0, "returns success");
        cry_prng_lfsr113_rand(got, 3);
    }
    vp_check(cry_prng_lfsr113_init(seed, n) == 0, "returns success");
    for (i = 0; i < n; i++) x[i % 16] ^= seed[i];
    for (i = 0; i < 4; i++) {
        memcpy(&zz[i], x + 4 * i, 4);
        if (zz[i] <= lo[i]) zz[i] = 987654321;
    }
    for (i = 2; vp_arg(i); i++) {
        memset(got, 0x5a, sizeof(got));
        vp_check(cry_prng_lfsr113_rand(got + 1, vp_arg(i)) == 0, "returns success");
        for (j = 0; j < vp_arg(i); j += 4) {
            uint32_t o = ref113();
            for (k = 0; k < 4 && j + k < vp_arg(i); k++)
                vp_check(got[1 + j + k] == (unsigned char)(o >> (24 - 8 * k)), "random bytes");
        }
        vp_check(got[0] == 0x5a && got[1 + vp_arg(i)] == 0x5a, "only the requested bytes are written");
    }
}
