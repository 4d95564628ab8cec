#include "vp.h"
#include "ref_des.h"
#include <cry/des.h>

static void ref_one(unsigned char *d, const unsigned char *s, const unsigned char *k, int klen, int dec)
{
    unsigned char t[8];
    if (klen < 24) { ref_des(d, s, k, dec); return; }
    ref_des(t, s, dec ? k + 16 : k, dec);
    ref_des(d, t, k + 8, !dec);
    ref_des(t, d, dec ? k : k + 16, dec);
    memcpy(d, t, 8);
}

void t_des(void)
{
    int klen = vp_arg(0), len = vp_arg(1), inplace = vp_arg(2), dec = vp_arg(3), i;
    cry_des_ctx c;
    unsigned char key[24], in[len + 1], s[len + 1], d[len + 1], want[len + 8];
    vp_sym(key, klen);
    vp_sym(in, len);
    memcpy(s, in, len);
    memset(d, 0x5a, len);
    cry_des_init(&c);
    if (vp_arg(4)) {        /* an earlier, longer key must not survive */
        unsigned char old[24];
        vp_sym(old, 24);
        cry_des_key_set(&c, old, 24);
    }
    cry_des_key_set(&c, key, klen);
    for (i = 0; i < len; i += 8)
        ref_one(want + i, in + i, key, klen, dec);
    (dec ? cry_des_decrypt : cry_des_encrypt)(&c, inplace ? s : d, s, len);
    vp_check_eq(inplace ? s : d, want, len, "DES equals the standard");
    if (!inplace)
        vp_check_eq(s, in, len, "source is not modified");
}

void t_inv(void)
{
    int klen = vp_arg(0), dec = vp_arg(1);
    cry_des_ctx c;
    unsigned char key[24], in[16], out[16];
    vp_sym(key, klen);
    vp_sym(in, 16);
    cry_des_init(&c);
    cry_des_key_set(&c, key, klen);
    (dec ? cry_des_decrypt : cry_des_encrypt)(&c, out, in, 16);
    (dec ? cry_des_encrypt : cry_des_decrypt)(&c, out, out, 16);
    vp_check_eq(out, in, 16, "decryption inverts encryption");
}
