#include "vp.h"
#include "ref_aes.h"
#include <cry/aes.h>

/* encryption is FIPS-197 and decryption its inverse, for 0..3 blocks, in place or not, trailing bytes untouched */
void t_enc(void)
{
    int klen = vp_arg(0), len = vp_arg(1), inplace = vp_arg(2), dec = vp_arg(3), i;
    cry_aes_ctx c;
    ref_aes r;
    unsigned char key[32], in[64], out[64], want[64];
    vp_sym(key, klen);
    vp_sym(in, sizeof(in));
    vp_sym(out, sizeof(out));
    cry_aes_init(&c);
    cry_aes_key_set(&c, key, klen);
    ref_aes_key(&r, key, klen);
    memcpy(want, inplace ? in : out, 64);
    for (i = 0; i + 16 <= len; i += 16)
        (dec ? ref_aes_dec : ref_aes_enc)(&r, want + i, in + i);
    {
        unsigned char s[len + 1], d[len + 1];
        memcpy(s, in, len);
        memcpy(d, inplace ? in : out, len);
        (dec ? cry_aes_decrypt : cry_aes_encrypt)(&c, inplace ? s : d, s, len);
        vp_check_eq(inplace ? s : d, want, len, "block cipher equals the standard, rest of the buffer untouched");
        if (!inplace)
            vp_check_eq(s, in, len, "source is not modified");
    }
}

/* every history of encryptions and decryptions (bits of arg 1, lsb first) on one context */
void t_hist(void)
{
    int klen = vp_arg(0), n = vp_arg(2), i;
    unsigned long h = vp_arg(1);
    cry_aes_ctx c;
    ref_aes r;
    unsigned char key[32], in[16], out[16], want[16];
    vp_sym(key, klen);
    cry_aes_init(&c);
    cry_aes_key_set(&c, key, klen);
    ref_aes_key(&r, key, klen);
    for (i = 0; i < n; i++, h >>= 1) {
        vp_sym(in, 16);
        (h & 1 ? cry_aes_decrypt : cry_aes_encrypt)(&c, out, in, 16);
        (h & 1 ? ref_aes_dec : ref_aes_enc)(&r, want, in);
        vp_check_eq(out, want, 16, "result independent of the operations before");
    }
}

/* a new key replaces the old one completely */
void t_rekey(void)
{
    int k1 = vp_arg(0), k2 = vp_arg(1), dec = vp_arg(2), d2 = vp_arg(3);
    cry_aes_ctx c;
    ref_aes r;
    unsigned char key[32], in[16], out[16], want[16];
    vp_sym(key, k1);
    vp_sym(in, 16);
    cry_aes_init(&c);
    cry_aes_key_set(&c, key, k1);
    (dec ? cry_aes_decrypt : cry_aes_encrypt)(&c, out, in, 16);
    vp_sym(key, k2);
    cry_aes_key_set(&c, key, k2);
    ref_aes_key(&r, key, k2);
    (d2 ? cry_aes_decrypt : cry_aes_encrypt)(&c, out, in, 16);
    (d2 ? ref_aes_dec : ref_aes_enc)(&r, want, in);
    vp_check_eq(out, want, 16, "key replacement");
}

/* what was encrypted under one context decrypts under another with the same key */
void t_inv(void)
{
    int klen = vp_arg(0), first = vp_arg(1);
    cry_aes_ctx c, d;
    unsigned char key[32], in[16], out[16];
    vp_sym(key, klen);
    vp_sym(in, 16);
    cry_aes_init(&c);
    cry_aes_init(&d);
    cry_aes_key_set(&c, key, klen);
    cry_aes_key_set(&d, key, klen);
    (first ? cry_aes_decrypt : cry_aes_encrypt)(&c, out, in, 16);
    (first ? cry_aes_encrypt : cry_aes_decrypt)(&d, out, out, 16);
    vp_check_eq(out, in, 16, "decryption inverts encryption");
}
