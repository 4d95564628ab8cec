/* Reference hash functions written from FIPS 180-4 and RFC 1321. */
#ifndef REF_HASH_H_
#define REF_HASH_H_
#include <stdint.h>
#include <string.h>

static uint32_t ref_rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static uint32_t ref_ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static uint64_t ref_ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

/* constants of SHA-2: fractional parts of cube and square roots of the first primes, generated (see selftest) */
static const uint64_t ref_k512[80] = {
    0x428a2f98d728ae22ULL, 0x7137449123ef65cdULL, 0xb5c0fbcfec4d3b2fULL, 0xe9b5dba58189dbbcULL,
    0x3956c25bf348b538ULL, 0x59f111f1b605d019ULL, 0x923f82a4af194f9bULL, 0xab1c5ed5da6d8118ULL,
    0xd807aa98a3030242ULL, 0x12835b0145706fbeULL, 0x243185be4ee4b28cULL, 0x550c7dc3d5ffb4e2ULL,
    0x72be5d74f27b896fULL, 0x80deb1fe3b1696b1ULL, 0x9bdc06a725c71235ULL, 0xc19bf174cf692694ULL,
    0xe49b69c19ef14ad2ULL, 0xefbe4786384f25e3ULL, 0x0fc19dc68b8cd5b5ULL, 0x240ca1cc77ac9c65ULL,
    0x2de92c6f592b0275ULL, 0x4a7484aa6ea6e483ULL, 0x5cb0a9dcbd41fbd4ULL, 0x76f988da831153b5ULL,
    0x983e5152ee66dfabULL, 0xa831c66d2db43210ULL, 0xb00327c898fb213fULL, 0xbf597fc7beef0ee4ULL,
    0xc6e00bf33da88fc2ULL, 0xd5a79147930aa725ULL, 0x06ca6351e003826fULL, 0x142929670a0e6e70ULL,
    0x27b70a8546d22ffcULL, 0x2e1b21385c26c926ULL, 0x4d2c6dfc5ac42aedULL, 0x53380d139d95b3dfULL,
    0x650a73548baf63deULL, 0x766a0abb3c77b2a8ULL, 0x81c2c92e47edaee6ULL, 0x92722c851482353bULL,
    0xa2bfe8a14cf10364ULL, 0xa81a664bbc423001ULL, 0xc24b8b70d0f89791ULL, 0xc76c51a30654be30ULL,
    0xd192e819d6ef5218ULL, 0xd69906245565a910ULL, 0xf40e35855771202aULL, 0x106aa07032bbd1b8ULL,
    0x19a4c116b8d2d0c8ULL, 0x1e376c085141ab53ULL, 0x2748774cdf8eeb99ULL, 0x34b0bcb5e19b48a8ULL,
    0x391c0cb3c5c95a63ULL, 0x4ed8aa4ae3418acbULL, 0x5b9cca4f7763e373ULL, 0x682e6ff3d6b2b8a3ULL,
    0x748f82ee5defb2fcULL, 0x78a5636f43172f60ULL, 0x84c87814a1f0ab72ULL, 0x8cc702081a6439ecULL,
    0x90befffa23631e28ULL, 0xa4506cebde82bde9ULL, 0xbef9a3f7b2c67915ULL, 0xc67178f2e372532bULL,
    0xca273eceea26619cULL, 0xd186b8c721c0c207ULL, 0xeada7dd6cde0eb1eULL, 0xf57d4f7fee6ed178ULL,
    0x06f067aa72176fbaULL, 0x0a637dc5a2c898a6ULL, 0x113f9804bef90daeULL, 0x1b710b35131c471bULL,
    0x28db77f523047d84ULL, 0x32caab7b40c72493ULL, 0x3c9ebe0a15c9bebcULL, 0x431d67c49c100d4cULL,
    0x4cc5d4becb3e42b6ULL, 0x597f299cfc657e2aULL, 0x5fcb6fab3ad6faecULL, 0x6c44198c4a475817ULL
};
static const uint64_t ref_h512[8] = { 0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL, 0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL, 0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL };
static const uint64_t ref_h384[8] = { 0xcbbb9d5dc1059ed8ULL, 0x629a292a367cd507ULL, 0x9159015a3070dd17ULL, 0x152fecd8f70e5939ULL, 0x67332667ffc00b31ULL, 0x8eb44a8768581511ULL, 0xdb0c2e0d64f98fa7ULL, 0x47b5481dbefa4fa4ULL };
static const uint32_t ref_tmd5[64] = {
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee,
    0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
    0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be,
    0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa,
    0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
    0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed,
    0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c,
    0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
    0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05,
    0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039,
    0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
    0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1,
    0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391
};

static void ref_sha256_block(uint32_t *h, const unsigned char *p)
{
    uint32_t w[64], a, b, c, d, e, f, g, hh, t1, t2;
    int t;
    for (t = 0; t < 16; t++)
        w[t] = ((uint32_t)p[4*t] << 24) | ((uint32_t)p[4*t+1] << 16) | ((uint32_t)p[4*t+2] << 8) | p[4*t+3];
    for (t = 16; t < 64; t++)
        w[t] = (ref_ror(w[t-2], 17) ^ ref_ror(w[t-2], 19) ^ (w[t-2] >> 10)) + w[t-7] +
               (ref_ror(w[t-15], 7) ^ ref_ror(w[t-15], 18) ^ (w[t-15] >> 3)) + w[t-16];
    a = h[0]; b = h[1]; c = h[2]; d = h[3]; e = h[4]; f = h[5]; g = h[6]; hh = h[7];
    for (t = 0; t < 64; t++) {
        t1 = hh + (ref_ror(e, 6) ^ ref_ror(e, 11) ^ ref_ror(e, 25)) + ((e & f) ^ (~e & g)) +
             (uint32_t)(ref_k512[t] >> 32) + w[t];
        t2 = (ref_ror(a, 2) ^ ref_ror(a, 13) ^ ref_ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
        hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}

static void ref_sha512_block(uint64_t *h, const unsigned char *p)
{
    uint64_t w[80], a, b, c, d, e, f, g, hh, t1, t2;
    int t, i;
    for (t = 0; t < 16; t++) {
        w[t] = 0;
        for (i = 0; i < 8; i++)
            w[t] = (w[t] << 8) | p[8*t+i];
    }
    for (t = 16; t < 80; t++)
        w[t] = (ref_ror64(w[t-2], 19) ^ ref_ror64(w[t-2], 61) ^ (w[t-2] >> 6)) + w[t-7] +
               (ref_ror64(w[t-15], 1) ^ ref_ror64(w[t-15], 8) ^ (w[t-15] >> 7)) + w[t-16];
    a = h[0]; b = h[1]; c = h[2]; d = h[3]; e = h[4]; f = h[5]; g = h[6]; hh = h[7];
    for (t = 0; t < 80; t++) {
        t1 = hh + (ref_ror64(e, 14) ^ ref_ror64(e, 18) ^ ref_ror64(e, 41)) + ((e & f) ^ (~e & g)) +
             ref_k512[t] + w[t];
        t2 = (ref_ror64(a, 28) ^ ref_ror64(a, 34) ^ ref_ror64(a, 39)) + ((a & b) ^ (a & c) ^ (b & c));
        hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
}

static void ref_sha1_block(uint32_t *h, const unsigned char *p)
{
    uint32_t w[80], a, b, c, d, e, f, k, tmp;
    int t;
    for (t = 0; t < 16; t++)
        w[t] = ((uint32_t)p[4*t] << 24) | ((uint32_t)p[4*t+1] << 16) | ((uint32_t)p[4*t+2] << 8) | p[4*t+3];
    for (t = 16; t < 80; t++)
        w[t] = ref_rol(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 1);
    a = h[0]; b = h[1]; c = h[2]; d = h[3]; e = h[4];
    for (t = 0; t < 80; t++) {
        if (t < 20) { f = (b & c) ^ (~b & d); k = 0x5a827999; }
        else if (t < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
        else if (t < 60) { f = (b & c) ^ (b & d) ^ (c & d); k = 0x8f1bbcdc; }
        else { f = b ^ c ^ d; k = 0xca62c1d6; }
        tmp = ref_rol(a, 5) + f + e + k + w[t];
        e = d; d = c; c = ref_rol(b, 30); b = a; a = tmp;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}

static void ref_md5_block(uint32_t *h, const unsigned char *p)
{
    static const unsigned char s[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 };
    uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3], f, tmp;
    int i, g;
    for (i = 0; i < 16; i++)
        x[i] = p[4*i] | ((uint32_t)p[4*i+1] << 8) | ((uint32_t)p[4*i+2] << 16) | ((uint32_t)p[4*i+3] << 24);
    for (i = 0; i < 64; i++) {
        if (i < 16) { f = (b & c) | (~b & d); g = i; }
        else if (i < 32) { f = (b & d) | (c & ~d); g = (5 * i + 1) % 16; }
        else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
        else { f = c ^ (b | ~d); g = (7 * i) % 16; }
        tmp = d; d = c; c = b;
        b = b + ref_rol(a + f + ref_tmd5[i] + x[g], s[(i / 16) * 4 + i % 4]);
        a = tmp;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}

enum { R_MD5, R_SHA1, R_SHA256, R_SHA512, R_SHA384 };
typedef struct { uint32_t h[8]; uint64_t H[8]; } ref_state;
static int ref_blk(int alg) { return alg >= R_SHA512 ? 128 : 64; }
static int ref_dsize(int alg) { return alg == R_MD5 ? 16 : alg == R_SHA1 ? 20 : alg == R_SHA256 ? 32 : alg == R_SHA512 ? 64 : 48; }

static void ref_start(int alg, ref_state *s)
{
    static const uint32_t h1[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    int i;
    memset(s, 0, sizeof(*s));
    for (i = 0; i < 8; i++) {
        s->h[i] = alg == R_SHA256 ? (uint32_t)(ref_h512[i] >> 32) : i < 5 ? h1[i] : 0;
        s->H[i] = alg == R_SHA384 ? ref_h384[i] : ref_h512[i];
    }
}

static void ref_block(int alg, ref_state *s, const unsigned char *p)
{
    if (alg == R_MD5) ref_md5_block(s->h, p);
    else if (alg == R_SHA1) ref_sha1_block(s->h, p);
    else if (alg == R_SHA256) ref_sha256_block(s->h, p);
    else ref_sha512_block(s->H, p);
}

/* digest of a message whose first `before` bytes (a multiple of the block) led to state s; tail m[0..n) */
static void ref_finish(int alg, ref_state *s, uint64_t before_hi, uint64_t before, const unsigned char *m, size_t n, unsigned char *out)
{
    unsigned char buf[1024];
    int blk = ref_blk(alg), i;
    size_t tot = n + 1 + (blk == 128 ? 16 : 8), k;
    uint64_t len = before + n, bits = len << 3, hi = (before_hi << 3) | (len >> 61);
    tot = (tot + blk - 1) / blk * blk;
    memset(buf, 0, tot);
    if (n)
        memcpy(buf, m, n);
    buf[n] = 0x80;
    for (i = 0; i < 8; i++) {
        if (alg == R_MD5)
            buf[tot - 8 + i] = (unsigned char)(bits >> (8 * i));
        else
            buf[tot - 1 - i] = (unsigned char)(bits >> (8 * i));
        if (blk == 128)
            buf[tot - 9 - i] = (unsigned char)(hi >> (8 * i));
    }
    for (k = 0; k < tot; k += blk)
        ref_block(alg, s, buf + k);
    for (i = 0; i < ref_dsize(alg); i++)
        out[i] = alg == R_MD5 ? (unsigned char)(s->h[i / 4] >> (8 * (i % 4))) :
                 blk == 64 ? (unsigned char)(s->h[i / 4] >> (24 - 8 * (i % 4))) :
                 (unsigned char)(s->H[i / 8] >> (56 - 8 * (i % 8)));
}

static void ref_hash(int alg, unsigned char *out, const unsigned char *m, size_t n)
{
    ref_state s;
    ref_start(alg, &s);
    ref_finish(alg, &s, 0, 0, m, n, out);
}
#endif
