/* Continuation of a long message: the length fields of the contexts hold an arbitrary earlier total. */
#include "vp.h"
#include "ref_hash.h"
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>

void t_long(void)
{
    int alg = vp_arg(0), n0 = vp_arg(1), n1 = vp_arg(2), i;
    union { cry_md5_ctx m; cry_sha1_ctx s1; cry_sha256_ctx s2; cry_sha512_ctx s5; } c;
    ref_state s;
    unsigned char p[300], got[64], want[64];
    uint64_t N, hi = 0;

    vp_word(&N, 8);
    if (alg >= R_SHA512) {
        N &= ~(uint64_t)127;
        vp_word(&hi, 8);
        hi &= 0x0fffffffffffffffULL;
    } else {
        N &= ~(uint64_t)63 & 0x0fffffffffffffffULL;
    }
    vp_sym(p, n0 + n1);
    memset(&s, 0, sizeof(s));
    memset(got, 0, 64);
    memset(want, 0, 64);
    if (alg >= R_SHA512)
        vp_assume(N <= (uint64_t)-1 - 1024);
    if (alg == R_MD5) {
        cry_md5_init(&c.m);
        for (i = 0; i < 4; i++) { vp_word(&s.h[i], 4); c.m.state[i] = s.h[i]; }
        c.m.len[0] = (uint32_t)(N << 3);
        c.m.len[1] = (uint32_t)(N >> 29);
        cry_md5_update(&c.m, p, n0); cry_md5_update(&c.m, p + n0, n1);
        cry_md5_digest(&c.m, got);
    } else if (alg == R_SHA1) {
        cry_sha1_init(&c.s1);
        for (i = 0; i < 5; i++) { vp_word(&s.h[i], 4); c.s1.state[i] = s.h[i]; }
        c.s1.len[0] = (uint32_t)N;
        c.s1.len[1] = (uint32_t)(N >> 32);
        cry_sha1_update(&c.s1, p, n0); cry_sha1_update(&c.s1, p + n0, n1);
        cry_sha1_digest(&c.s1, got);
    } else if (alg == R_SHA256) {
        cry_sha256_init(&c.s2);
        for (i = 0; i < 8; i++) { vp_word(&s.h[i], 4); c.s2.state[i] = s.h[i]; }
        c.s2.bitlen = N << 3;
        cry_sha256_update(&c.s2, p, n0); cry_sha256_update(&c.s2, p + n0, n1);
        cry_sha256_digest(&c.s2, got);
    } else {
        cry_sha512_init(&c.s5, alg == R_SHA384);
        for (i = 0; i < 8; i++) { vp_word(&s.H[i], 8); c.s5.state[i] = s.H[i]; }
        c.s5.len[0] = N;
        c.s5.len[1] = hi;
        cry_sha512_update(&c.s5, p, n0); cry_sha512_update(&c.s5, p + n0, n1);
        cry_sha512_digest(&c.s5, got);
    }
    ref_finish(alg, &s, hi, N, p, n0 + n1, want);
    vp_check_eq(got, want, 64, "digest of the continuation of a long message");
}
