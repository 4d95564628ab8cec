#include "vp.h"
#include <cry/base64.h>
#include <cry/affine.h>
#include <cry/hill.h>
#include <string.h>

static char enc6(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static int dec6(unsigned char c)
{
    return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 :
           c == '+' ? 62 : c == '/' ? 63 : -1;
}
/* arg: number of bytes */
void t_b64enc(void)
{
    int n = vp_arg(0), m = (n + 2) / 3 * 4, i;
    unsigned char in[n + 1];
    char out[m + 1], want[m + 1], back[n + 4];
    vp_sym(in, n);
    memset(out, 0x5a, m + 1);
    for (i = 0; i < n; i += 3) {
        unsigned v = in[i] << 16 | (i + 1 < n ? in[i + 1] << 8 : 0) | (i + 2 < n ? in[i + 2] : 0);
        char *o = want + i / 3 * 4;
        o[0] = enc6(v >> 18); o[1] = enc6(v >> 12 & 63);
        o[2] = i + 1 < n ? enc6(v >> 6 & 63) : '='; o[3] = i + 2 < n ? enc6(v & 63) : '=';
    }
    vp_check(cry_base64_encode(out, (char *)in, n) == (size_t)m, "length of the encoding");
    vp_check_eq(out, want, m, "base-64 encoding");
    vp_check(out[m] == 0x5a, "nothing is written after the encoding");
    memset(back, 0x5a, n + 4);
    vp_check(cry_base64_decode(back, out, m) == (size_t)n, "length of the decoding");
    vp_check_eq(back, in, n, "decoding inverts encoding");
    vp_check(back[n] == 0x5a, "nothing is written after the decoding");
}
/* arg: number of characters, all arbitrary */
void t_b64dec(void)
{
    int n = vp_arg(0), i, j, ok = n % 4 == 0, m = 0;
    char in[n + 1], out[n / 4 * 3 + 1], want[n / 4 * 3 + 3];
    size_t r;
    vp_sym(in, n);
    memset(out, 0x5a, sizeof(out));
    if (ok) {
        for (i = 0; i < n; i += 4) {
            int last = i + 4 == n, k = 4;
            unsigned v = 0;
            if (last && in[i + 3] == '=') k = in[i + 2] == '=' ? 2 : 3;
            for (j = 0; j < 4; j++) {
                int x = j < k ? dec6(in[i + j]) : 0;
                if (x < 0) ok = 0;
                v = v << 6 | (x & 63);
            }
            want[m] = v >> 16;
            if (k > 2) want[m + 1] = v >> 8;
            if (k > 3) want[m + 2] = v;
            m += k - 1;
        }
    }
    r = cry_base64_decode(out, in, n);
    if (!ok) {
        vp_check(r == (size_t)-1, "malformed text is refused");
    } else {
        vp_check(r == (size_t)m, "length of the decoding");
        vp_check_eq(out, want, m, "base-64 decoding");
        vp_check(out[n / 4 * 3] == 0x5a, "nothing is written after the decoding");
    }
}

/* inverse of an odd number modulo 256, by Newton's iteration; nothing for an even one (0, as misc.h says) */
static unsigned long inv256(unsigned long v)
{
    unsigned char x = v, y = x;
    y *= 2 - x * y; y *= 2 - x * y; y *= 2 - x * y;
    return v & 1 ? y : 0;
}
unsigned long cry_long_inv(unsigned long val, unsigned long mod);
#ifdef STUB
static int opaque;
static unsigned char inv_of, inv_is;
unsigned long vp_stub_cry_long_inv(unsigned long val, unsigned long mod)
{
    vp_check(mod == 256 && val < 256, "modulus of the inverse");
    if (!opaque) return inv256(val);
    /* any inverse: what follows holds for whatever number it is */
    opaque = 2;
    inv_of = val;
    inv_is = vp_u8();
    return inv_is;
}
static unsigned char det_inv(unsigned char det)
{
    if (opaque != 2) return inv256(det);
    vp_check(inv_of == det, "determinant");
    return inv_is;
}
#else
static int opaque;
#define det_inv inv256
/* the real helper, split into cases by the value */
void t_inv(void)
{
    /* one case for each of the 256 arguments */
    unsigned long v, r;
    for (v = 0; v < 256; v++) {
        r = cry_long_inv(v, 256);
        vp_check(r == inv256(v), "inverse modulo 256");
        if (v & 1) vp_check(r < 256 && (r * v) % 256 == 1, "inverse modulo 256");
    }
}
#endif

/* arg: key length, data length, in place */
void t_affine(void)
{
    int nk = vp_arg(0), n = vp_arg(1), ip = vp_arg(2), i, ok = nk > 0, ke = nk > CRY_AFFINE_KEYMAX ? CRY_AFFINE_KEYMAX : nk;
    cry_affine_ctx c;
    unsigned char a[nk + 1], b[nk + 1], in[n + 1], e[n + 1], d[n + 1];
    vp_sym(a, nk); vp_sym(b, nk); vp_sym(in, n);
    for (i = 0; i < ke; i++) if (!(a[i] & 1)) ok = 0;
    memset(&c, 0x77, sizeof(c));
    if (cry_affine_init(&c, a, b, nk) != 0) {
        vp_check(!ok, "a key with odd factors is accepted");
        return;
    }
    vp_check(ok, "a key that is empty or has an even factor is refused");
    e[n] = d[n] = 0x5a;
    for (i = 0; i < ke; i++) vp_check(c.inva[i] == inv256(a[i]), "inverse factor");
    memcpy(e, in, n);
    cry_affine_encrypt(&c, e, ip ? e : in, n);
    for (i = 0; i < n; i++) vp_check(e[i] == (unsigned char)(in[i] * a[i % ke] + b[i % ke]), "affine encryption");
    memcpy(d, e, n);
    cry_affine_decrypt(&c, d, ip ? d : e, n);
    vp_check_eq(d, in, n, "affine decryption inverts encryption");
    vp_check(e[n] == 0x5a && d[n] == 0x5a, "nothing is written after the data");
}

/* arg: key length, number of blocks, in place, given inverse */
void t_hill(void)
{
    int nk = vp_arg(0), nb = vp_arg(1), ip = vp_arg(2), dim = 0, i, j, k;
    cry_hill_ctx c;
    unsigned char key[nk + 1], in[64], e[64], d[64];
    int n;
    while ((dim + 1) * (dim + 1) <= nk && dim < CRY_HILL_KEYDIM_MAX) dim++;
    n = dim * nb;
    vp_sym(key, nk);
    vp_sym(in, n);
    memset(&c, 0x77, sizeof(c));
    opaque = dim > 1;
    vp_check(nk == 0 || dim > 0, "dimension");
    if (cry_hill_init(&c, key, NULL, nk) != 0) {
        /* refused: the determinant is even (or there is no matrix) */
        if (dim == 1) vp_check((key[0] & 1) == 0, "an invertible key is accepted");
        if (dim == 2) vp_check(((key[0] * key[3] - key[1] * key[2]) & 1) == 0, "an invertible key is accepted");
        if (dim == 3) vp_check(((key[0] * (key[4] * key[8] - key[5] * key[7]) - key[1] * (key[3] * key[8] - key[5] * key[6]) +
                                 key[2] * (key[3] * key[7] - key[4] * key[6])) & 1) == 0, "an invertible key is accepted");
        return;
    }
    vp_check(dim > 0, "an empty key is refused");
    memset(e, 0x5a, 64); memset(d, 0x5a, 64);
    memcpy(e, in, n);
    cry_hill_encrypt(&c, e, ip ? e : in, n);
    for (k = 0; k < nb; k++)
        for (i = 0; i < dim; i++) {
            unsigned char s = 0;
            for (j = 0; j < dim; j++) s += key[i * dim + j] * in[k * dim + j];
            vp_check(e[k * dim + i] == s, "Hill encryption multiplies by the key");
        }
    /* the inverse matrix: adjugate times the inverse of the determinant */
    {
        unsigned char adj[9], det, idet, *q = key;
        if (dim == 1) { adj[0] = 1; det = q[0]; }
        if (dim == 2) { adj[0] = q[3]; adj[1] = -q[1]; adj[2] = -q[2]; adj[3] = q[0]; det = q[0] * q[3] - q[1] * q[2]; }
        if (dim == 3) {
#define M2(a, b, c, d) ((unsigned char)(q[a] * q[d] - q[b] * q[c]))
            adj[0] = M2(4, 5, 7, 8); adj[1] = -M2(1, 2, 7, 8); adj[2] = M2(1, 2, 4, 5);
            adj[3] = -M2(3, 5, 6, 8); adj[4] = M2(0, 2, 6, 8); adj[5] = -M2(0, 2, 3, 5);
            adj[6] = M2(3, 4, 6, 7); adj[7] = -M2(0, 1, 6, 7); adj[8] = M2(0, 1, 3, 4);
            det = q[0] * adj[0] - q[1] * M2(3, 5, 6, 8) + q[2] * adj[6];
        }
        vp_check(det & 1, "the key is invertible");
        idet = det_inv(det);
        for (i = 0; i < dim * dim; i++) {
            adj[i] *= idet;
            vp_check(c.ikey[i] == adj[i], "inverse of the key");
            adj[i] = c.ikey[i];
        }
        memcpy(d, e, n);
        cry_hill_decrypt(&c, d, ip ? d : e, n);
        for (k = 0; k < nb; k++)
            for (i = 0; i < dim; i++) {
                unsigned char s = 0;
                for (j = 0; j < dim; j++) s += adj[i * dim + j] * e[k * dim + j];
                vp_check(d[k * dim + i] == s, "Hill decryption multiplies by the inverse");
                if (dim == 1) vp_check(d[k] == in[k], "Hill decryption inverts encryption");
            }
    }
    for (i = n; i < 64; i++) vp_check(e[i] == 0x5a && d[i] == 0x5a, "nothing is written after the data");
}
