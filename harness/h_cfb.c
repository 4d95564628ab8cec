#include "absciph.h"
#include <cry/cfb.h>

static void setup(cry_cfb_ctx *c, ac_ctx *cc, ac_ctx *rc, unsigned char *iv, int bs)
{
    unsigned char key[16];
    ac_bs = bs;
    vp_sym(key, 16);
    vp_sym(iv, bs);
    memset(cc, 0x11, sizeof(*cc));
    cry_cfb_init(c, cc, &ac_itf);
    cry_cfb_key_set(c, key, 16);
    cry_cfb_iv_set(c, iv, bs);
    ac_init(rc);
    ac_key_set(rc, key, 16);
}

/* full block feedback: arg block size, in place, decrypt, first call (whole blocks), second call */
void t_cfb(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), dec = vp_arg(2), n1 = vp_arg(3), n2 = vp_arg(4), n = n1 + n2, i;
    ac_ctx cc, rc;
    cry_cfb_ctx c;
    unsigned char iv[16], o[16], in[n + 16], s1[n1 + 1], s2[n2 + 1], d1[n1 + 1], d2[n2 + 1], want[n + 16], fb[16];
    setup(&c, &cc, &rc, iv, bs);
    vp_sym(in, n);
    memcpy(fb, iv, bs);
    for (i = 0; i < n; i++) {
        if (i % bs == 0) ac_one(0, &rc, o, fb);
        want[i] = in[i] ^ o[i % bs];
        fb[i % bs] = dec ? in[i] : want[i];
    }
    memcpy(s1, in, n1);
    memcpy(s2, in + n1, n2);
    memset(d1, 0x5a, n1);
    memset(d2, 0x5a, n2);
    if (dec) {
        cry_cfb_decrypt(&c, inplace ? s1 : d1, s1, n1);
        cry_cfb_decrypt(&c, inplace ? s2 : d2, s2, n2);
    } else {
        cry_cfb_encrypt(&c, inplace ? s1 : d1, s1, n1);
        cry_cfb_encrypt(&c, inplace ? s2 : d2, s2, n2);
    }
    vp_check_eq(inplace ? s1 : d1, want, n1, "CFB, first call");
    vp_check_eq(inplace ? s2 : d2, want + n1, n2, "CFB, continued in a second call");
}

/* eight bit feedback, split anywhere */
void t_cfb8(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), dec = vp_arg(2), n1 = vp_arg(3), n2 = vp_arg(4), n = n1 + n2, i;
    ac_ctx cc, rc;
    cry_cfb_ctx c;
    unsigned char iv[16], o[16], in[n + 16], s1[n1 + 1], s2[n2 + 1], d1[n1 + 1], d2[n2 + 1], want[n + 16];
    unsigned char sr[n + 16];
    setup(&c, &cc, &rc, iv, bs);
    vp_sym(in, n);
    memcpy(sr, iv, bs);
    for (i = 0; i < n; i++) {
        ac_one(0, &rc, o, sr + i);
        want[i] = in[i] ^ o[0];
        sr[bs + i] = dec ? in[i] : want[i];
    }
    memcpy(s1, in, n1);
    memcpy(s2, in + n1, n2);
    memset(d1, 0x5a, n1);
    memset(d2, 0x5a, n2);
    (dec ? cry_cfb8_decrypt : cry_cfb8_encrypt)(&c, inplace ? s1 : d1, s1, n1);
    (dec ? cry_cfb8_decrypt : cry_cfb8_encrypt)(&c, inplace ? s2 : d2, s2, n2);
    vp_check_eq(inplace ? s1 : d1, want, n1, "CFB8, first call");
    vp_check_eq(inplace ? s2 : d2, want + n1, n2, "CFB8, continued in a second call");
}

void t_rt(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), n = vp_arg(2), eight = vp_arg(3);
    ac_ctx cc, rc;
    cry_cfb_ctx c;
    unsigned char iv[16], in[n + 1], e[n + 1], d[n + 1];
    setup(&c, &cc, &rc, iv, bs);
    vp_sym(in, n);
    memcpy(e, in, n);
    if (eight) cry_cfb8_encrypt(&c, e, inplace ? e : in, n); else cry_cfb_encrypt(&c, e, inplace ? e : in, n);
    cry_cfb_iv_set(&c, iv, bs);
    memcpy(d, e, n);
    if (eight) cry_cfb8_decrypt(&c, d, inplace ? d : e, n); else cry_cfb_decrypt(&c, d, inplace ? d : e, n);
    vp_check_eq(d, in, n, "decryption inverts encryption");
    cry_cfb_clear(&c);
    vp_check(cc.live == 0, "clear reaches the cipher");
}
