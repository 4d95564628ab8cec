#include "absciph.h"
#include <cry/ctr.h>

static void inc(unsigned char *c, int n)
{
    while (n-- > 0 && ++c[n] == 0) ;
}

/* arg: block size, in place, two lengths, shape of the initial counter */
void t_ctr(void)
{
    int bs = vp_arg(0), inplace = vp_arg(1), n1 = vp_arg(2), n2 = vp_arg(3), mode = vp_arg(4), n = n1 + n2, i, k;
    ac_ctx cc, rc;
    cry_ctr_ctx c;
    unsigned char key[16], iv[16], ctr[16], o[16], in[n + 1], s1[n1 + 1], s2[n2 + 1], d1[n1 + 1], d2[n2 + 1];
    unsigned char want[n + 1];
    ac_bs = bs;
    vp_sym(key, 16);
    vp_sym(iv, bs);
    if (mode <= 16)
        memset(iv + bs - mode, 0xff, mode);         /* carries */
    else if (mode == 100)
        vp_assume(iv[bs - 1] < 200);                /* no carry */
    else
        iv[bs - 1] = (unsigned char)(mode - 500);   /* carry after some blocks */
    vp_sym(in, n);
    memset(&cc, 0x11, sizeof(cc));
    cry_ctr_init(&c, &cc, &ac_itf);
    cry_ctr_key_set(&c, key, 16);
    cry_ctr_iv_set(&c, iv, bs);
    ac_init(&rc);
    ac_key_set(&rc, key, 16);
    memcpy(ctr, iv, bs);
    for (k = 0; k < 2; k++) {
        int base = k ? n1 : 0, len = k ? n2 : n1;
        for (i = 0; i < len; i++) {
            if (i % bs == 0) { ac_one(0, &rc, o, ctr); inc(ctr, bs); }
            want[base + i] = in[base + i] ^ o[i % bs];
        }
    }
    memcpy(s1, in, n1);
    memcpy(s2, in + n1, n2);
    memset(d1, 0x5a, n1);
    memset(d2, 0x5a, n2);
    cry_ctr_encrypt(&c, inplace ? s1 : d1, s1, n1);
    cry_ctr_decrypt(&c, inplace ? s2 : d2, s2, n2);
    vp_check_eq(inplace ? s1 : d1, want, n1, "CTR, first call");
    vp_check_eq(inplace ? s2 : d2, want + n1, n2, "CTR, continued in a second call");
    if (!inplace) {
        vp_check_eq(s1, in, n1, "source is not modified");
        vp_check_eq(s2, in + n1, n2, "source is not modified");
    }
    cry_ctr_clear(&c);
    vp_check(cc.live == 0, "clear reaches the cipher");
}
