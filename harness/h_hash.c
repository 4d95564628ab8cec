#include "vp.h"
#include "ref_hash.h"
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>

typedef union { cry_md5_ctx m; cry_sha1_ctx s1; cry_sha256_ctx s2; cry_sha512_ctx s5; } uctx;

static void h_init(int alg, uctx *c)
{
    if (alg == R_MD5) cry_md5_init(&c->m);
    else if (alg == R_SHA1) cry_sha1_init(&c->s1);
    else if (alg == R_SHA256) cry_sha256_init(&c->s2);
    else cry_sha512_init(&c->s5, alg == R_SHA384);
}
static void h_update(int alg, uctx *c, const unsigned char *p, size_t n)
{
    if (alg == R_MD5) cry_md5_update(&c->m, p, n);
    else if (alg == R_SHA1) cry_sha1_update(&c->s1, p, n);
    else if (alg == R_SHA256) cry_sha256_update(&c->s2, p, n);
    else cry_sha512_update(&c->s5, p, n);
}
static void h_digest(int alg, uctx *c, unsigned char *out)
{
    if (alg == R_MD5) cry_md5_digest(&c->m, out);
    else if (alg == R_SHA1) cry_sha1_digest(&c->s1, out);
    else if (alg == R_SHA256) cry_sha256_digest(&c->s2, out);
    else cry_sha512_digest(&c->s5, out);
}
static void h_one(int alg, unsigned char *out, const unsigned char *p, size_t n)
{
    if (alg == R_MD5) cry_md5(out, p, n);
    else if (alg == R_SHA1) cry_sha1(out, p, n);
    else if (alg == R_SHA256) cry_sha256(out, p, n);
    else if (alg == R_SHA512) cry_sha512(out, p, n);
    else cry_sha384(out, p, n);
}

/* one-shot digest equals the standard for every message of lo..hi bytes */
void t_oneshot(void)
{
    int alg = vp_arg(0), lo = vp_arg(1), hi = vp_arg(2), n;
    unsigned char got[64], want[64];
    for (n = lo; n <= hi; n++) {
        unsigned char p[n + 1];
        vp_sym(p, n);
        memset(got, 0x5a, sizeof(got));
        memset(want, 0x5a, sizeof(want));
        h_one(alg, got, p, n);
        ref_hash(alg, want, p, n);
        vp_check_eq(got, want, 64, "one-shot digest equals the standard");
    }
}

/* any division of a message into update calls gives the digest of the whole */
static void chunks(int alg, const int *c, int nc, int reuse)
{
    int n = 0, i, k;
    uctx ctx;
    unsigned char got[64], want[64];
    for (i = 0; i < nc; i++)
        n += c[i];
    {
        unsigned char p[n + 1];
        vp_sym(p, n);
        memset(got, 0x5a, sizeof(got));
        memset(want, 0x5a, sizeof(want));
        h_init(alg, &ctx);
        for (i = 0, k = 0; i < nc; k += c[i], i++) {
            unsigned char part[c[i] + 1];     /* exact sized so that over-reads show */
            memcpy(part, p + k, c[i]);
            h_update(alg, &ctx, part, c[i]);
            memset(part, 0, c[i]);            /* the caller may reuse its buffer */
        }
        h_digest(alg, &ctx, got);
        ref_hash(alg, want, p, n);
        vp_check_eq(got, want, 64, "chunked digest equals the standard");
        if (!reuse)
            return;
        /* the context is reusable after init */
        h_init(alg, &ctx);
        h_update(alg, &ctx, p, n < 3 ? n : 3);
        h_digest(alg, &ctx, got);
        ref_hash(alg, want, p, n < 3 ? n : 3);
        vp_check_eq(got, want, 64, "context reuse");
    }
}

void t_chunks2(void)
{
    int alg = vp_arg(0), lo = vp_arg(1), hi = vp_arg(2), b = ref_blk(alg), a, i;
    for (a = lo; a <= hi; a++) {
        int second[4] = { b - a - 1, b - a, b - a + 1, 2 * b - a };
        for (i = 0; i < 4; i++) {
            int c[3] = { a, second[i], 0 };
            if (second[i] >= 0)
                chunks(alg, c, 3, 0);
        }
    }
}

/* three parts around the padding boundary */
void t_chunks3(void)
{
    int alg = vp_arg(0), which = vp_arg(1), b = ref_blk(alg), l = b / 8, i, j, k;
    int v[6] = { 0, 1, b - l - 1, b - l, b - 1, b };
    i = which;
    for (j = 0; j < 6; j++)
        for (k = 1; k < 6; k += 3) {
            int c[4] = { v[i], v[j], 0, v[k] };
            if (b == 128 && v[i] + v[j] + v[k] == 1)
                continue;   /* a single symbolic byte is left to the one-shot job */
            chunks(alg, c, 4, 1);
        }
}

/* byte by byte */
void t_bytes(void)
{
    int alg = vp_arg(0), n = vp_arg(1), i;
    int c[300];
    for (i = 0; i < n; i++)
        c[i] = 1;
    chunks(alg, c, n, 1);
}
