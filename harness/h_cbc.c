#include "absciph.h"
#include <cry/cbc.h>

/* arg: block size, in place, decrypt, length of the first and of the second call, failing allocation */
void t_cbc(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), dec = vp_arg(2), n1 = vp_arg(3), n2 = vp_arg(4), fail = vp_arg(5);
    int n = n1 + n2, i, j, k, m1 = n1 - n1 % bs, tot;
    ac_ctx cc, rc;
    cry_cbc_ctx c;
    unsigned char key[16], iv[16], in[n + 16], s1[n1 + 1], s2[n2 + 1], d1[n1 + 1], d2[n2 + 1];
    unsigned char want[n + 16], prev[16], t[16];
    ac_bs = bs;
    vp_sym(key, 16);
    vp_sym(iv, bs);
    vp_sym(in, n);
    memset(&cc, 0x11, sizeof(cc));
    cry_cbc_init(&c, &cc, &ac_itf);
    cry_cbc_key_set(&c, key, 16);
    cry_cbc_iv_set(&c, iv, bs);
    ac_init(&rc);
    ac_key_set(&rc, key, 16);
    /* reference: blocks of the first call, then of the second one */
    memcpy(prev, iv, bs);
    for (k = 0; k < 2; k++) {
        int o = k ? n1 : 0, len = k ? n2 : n1;
        for (i = 0; i + bs <= len; i += bs) {
            if (!dec) {
                for (j = 0; j < bs; j++) t[j] = in[o + i + j] ^ prev[j];
                ac_one(0, &rc, want + o + i, t);
                memcpy(prev, want + o + i, bs);
            } else {
                ac_one(1, &rc, t, in + o + i);
                for (j = 0; j < bs; j++) want[o + i + j] = t[j] ^ prev[j];
                memcpy(prev, in + o + i, bs);
            }
        }
        for (; i < len; i++) want[o + i] = inplace ? in[o + i] : 0x5a;
    }
    memcpy(s1, in, n1);
    memcpy(s2, in + n1, n2);
    memset(d1, 0x5a, n1);
    memset(d2, 0x5a, n2);
    if (fail) vp_fail_alloc(fail);
    (dec ? cry_cbc_decrypt : cry_cbc_encrypt)(&c, inplace ? s1 : d1, s1, n1);
    (dec ? cry_cbc_decrypt : cry_cbc_encrypt)(&c, inplace ? s2 : d2, s2, n2);
    vp_fail_alloc(0);
    vp_check_eq(inplace ? s1 : d1, want, n1, "CBC, first call");
    vp_check_eq(inplace ? s2 : d2, want + n1, n2, "CBC, continued in a second call");
    if (!inplace) {
        vp_check_eq(s1, in, n1, "source is not modified");
        vp_check_eq(s2, in + n1, n2, "source is not modified");
    }
    vp_check(vp_live() == 0, "no memory is leaked");
    (void)m1; (void)tot;
}

/* decryption by a fresh context inverts encryption, a new IV restarts the chain */
void t_rt(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), n = vp_arg(2);
    ac_ctx cc;
    cry_cbc_ctx c;
    unsigned char key[16], iv[16], in[n + 1], e[n + 1], d[n + 1];
    ac_bs = bs;
    vp_sym(key, 16);
    vp_sym(iv, bs);
    vp_sym(in, n);
    cry_cbc_init(&c, &cc, &ac_itf);
    cry_cbc_key_set(&c, key, 16);
    cry_cbc_iv_set(&c, iv, bs);
    memcpy(e, in, n);
    if (inplace) cry_cbc_encrypt(&c, e, e, n); else cry_cbc_encrypt(&c, e, in, n);
    cry_cbc_iv_set(&c, iv, bs);
    memcpy(d, e, n);
    if (inplace) cry_cbc_decrypt(&c, d, d, n); else cry_cbc_decrypt(&c, d, e, n);
    vp_check_eq(d, in, n, "decryption inverts encryption");
    cry_cbc_clear(&c);
    vp_check(cc.live == 0, "clear reaches the cipher");
}
