#include "vp.h"
#include <cry/crc.h>
#include <string.h>

static uint32_t ref_step(uint32_t crc, unsigned char b, uint32_t poly)
{
    int i;
    crc ^= b;
    for (i = 0; i < 8; i++) crc = (crc >> 1) ^ (-(crc & 1) & poly);
    return crc;
}
static uint16_t ref16(int k, const unsigned char *d, int n)
{
    static const uint16_t poly[3] = { 0x8408, 0xa001, 0xa6bc }, init[3] = { 0xffff, 0xffff, 0 };
    uint32_t c = init[k];
    int i;
    for (i = 0; i < n; i++) c = ref_step(c, d[i], poly[k]);
    if (k != 1) { c ^= 0xffff; c = (c >> 8 | c << 8) & 0xffff; }
    return c;
}
static uint32_t ref32(const unsigned char *d, int n)
{
    uint32_t c = 0xffffffff;
    int i;
    for (i = 0; i < n; i++) c = ref_step(c, d[i], 0xedb88320);
    return ~c;
}
/* arg: kind (0 CCITT, 1 IBM, 2 DNP, 3 Ethernet), lengths of two pieces */
void t_crc(void)
{
    int k = vp_arg(0), n1 = vp_arg(1), n2 = vp_arg(2), n = n1 + n2;
    unsigned char d[n + 1], o[6], w[4];
    vp_sym(d, n);
    memset(o, 0xa5, 6);
    if (k < 3) {
        cry_crc16_ctx c, c2;
        uint16_t want = ref16(k, d, n);
        void (*init)(cry_crc16_ctx *) = k == 0 ? cry_crc16_ccitt_init : k == 1 ? cry_crc16_ibm_init : cry_crc16_dnp_init;
        memset(&c, 0x77, sizeof(c));
        memset(&c2, 0x66, sizeof(c2));
        init(&c); init(&c2);
        cry_crc16_update(&c, d, n1);
        cry_crc16_update(&c2, d, n);
        cry_crc16_update(&c, d + n1, n2);
        vp_check(cry_crc16_final(&c) == want, "16-bit CRC of two pieces");
        cry_crc16_digest(&c2, o + 1);
        w[0] = want >> 8; w[1] = want;
        vp_check_eq(o + 1, w, 2, "16-bit CRC as bytes");
        vp_check(o[0] == 0xa5 && o[3] == 0xa5, "two bytes are written");
        vp_check((k == 0 ? cry_crc16_ccitt(d, n) : k == 1 ? cry_crc16_ibm(d, n) : cry_crc16_dnp(d, n)) == want, "16-bit CRC in one call");
    } else {
        cry_crc32_ctx c, c2;
        uint32_t want = ref32(d, n);
        memset(&c, 0x77, sizeof(c));
        cry_crc32_eth_init(&c); cry_crc32_eth_init(&c2);
        cry_crc32_update(&c, d, n1);
        cry_crc32_update(&c2, d, n);
        cry_crc32_update(&c, d + n1, n2);
        vp_check(cry_crc32_final(&c) == want, "32-bit CRC of two pieces");
        cry_crc32_digest(&c2, o + 1);
        w[0] = want >> 24; w[1] = want >> 16; w[2] = want >> 8; w[3] = want;
        vp_check_eq(o + 1, w, 4, "32-bit CRC as bytes");
        vp_check(o[0] == 0xa5 && o[5] == 0xa5, "four bytes are written");
        vp_check(cry_crc32_eth(d, n) == want, "32-bit CRC in one call");
    }
}
/* one more byte from an arbitrary register (a message of any length) */
void t_step(void)
{
    int k = vp_arg(0), n = vp_arg(1), i;
    unsigned char d[8];
    vp_sym(d, n);
    if (k < 3) {
        cry_crc16_ctx c;
        uint32_t r;
        static const uint16_t poly[3] = { 0x8408, 0xa001, 0xa6bc };
        (k == 0 ? cry_crc16_ccitt_init : k == 1 ? cry_crc16_ibm_init : cry_crc16_dnp_init)(&c);
        c.crc = vp_u16();
        r = c.crc;
        cry_crc16_update(&c, d, n);
        for (i = 0; i < n; i++) r = ref_step(r, d[i], poly[k]);
        if (k != 1) { r ^= 0xffff; r = (r >> 8 | r << 8) & 0xffff; }
        vp_check(cry_crc16_final(&c) == r, "CRC goes on from any register");
    } else {
        cry_crc32_ctx c;
        uint32_t r;
        cry_crc32_eth_init(&c);
        c.crc = vp_u32();
        r = c.crc;
        cry_crc32_update(&c, d, n);
        for (i = 0; i < n; i++) r = ref_step(r, d[i], 0xedb88320);
        vp_check(cry_crc32_final(&c) == ~r, "CRC goes on from any register");
    }
}
