/* FIPS 46-3, written from the standard with the textbook tables; one bit per array element. */
#ifndef REF_DES_H_
#define REF_DES_H_
#include <string.h>
static const unsigned char rd_ip[64] = {
    58,50,42,34,26,18,10,2, 60,52,44,36,28,20,12,4, 62,54,46,38,30,22,14,6, 64,56,48,40,32,24,16,8,
    57,49,41,33,25,17,9,1, 59,51,43,35,27,19,11,3, 61,53,45,37,29,21,13,5, 63,55,47,39,31,23,15,7 };
static const unsigned char rd_pc1[56] = {
    57,49,41,33,25,17,9, 1,58,50,42,34,26,18, 10,2,59,51,43,35,27, 19,11,3,60,52,44,36,
    63,55,47,39,31,23,15, 7,62,54,46,38,30,22, 14,6,61,53,45,37,29, 21,13,5,28,20,12,4 };
static const unsigned char rd_pc2[48] = {
    14,17,11,24,1,5, 3,28,15,6,21,10, 23,19,12,4,26,8, 16,7,27,20,13,2,
    41,52,31,37,47,55, 30,40,51,45,33,48, 44,49,39,56,34,53, 46,42,50,36,29,32 };
static const unsigned char rd_p[32] = {
    16,7,20,21, 29,12,28,17, 1,15,23,26, 5,18,31,10, 2,8,24,14, 32,27,3,9, 19,13,30,6, 22,11,4,25 };
static const unsigned char rd_shift[16] = { 1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1 };
static const unsigned char rd_s[8][4][16] = {
 {{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7},{0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8},
  {4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0},{15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13}},
 {{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10},{3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5},
  {0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15},{13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9}},
 {{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8},{13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1},
  {13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7},{1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12}},
 {{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15},{13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9},
  {10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4},{3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14}},
 {{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9},{14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6},
  {4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14},{11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3}},
 {{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11},{10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8},
  {9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6},{4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13}},
 {{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1},{13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6},
  {1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2},{6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12}},
 {{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7},{1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2},
  {7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8},{2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}} };
static void ref_des(unsigned char *dst, const unsigned char *src, const unsigned char *key, int dec)
{
    static unsigned char flat[8][64];
    unsigned char b[64], k[64], cd[56], ks[16][48], l[32], r[32], t[32], f[32];
    int i, j, n;
    for (i = 0; i < 8; i++)             /* index by the six bits in order */
        for (j = 0; j < 64; j++)
            flat[i][j] = rd_s[i][((j >> 4) & 2) | (j & 1)][(j >> 1) & 15];
    for (i = 0; i < 64; i++) {
        b[i] = (src[i / 8] >> (7 - i % 8)) & 1;
        k[i] = (key[i / 8] >> (7 - i % 8)) & 1;
    }
    for (i = 0; i < 56; i++) cd[i] = k[rd_pc1[i] - 1];
    for (n = 0; n < 16; n++) {
        for (j = 0; j < rd_shift[n]; j++) {
            unsigned char c0 = cd[0], d0 = cd[28];
            for (i = 0; i < 27; i++) { cd[i] = cd[i + 1]; cd[28 + i] = cd[29 + i]; }
            cd[27] = c0; cd[55] = d0;
        }
        for (i = 0; i < 48; i++) ks[n][i] = cd[rd_pc2[i] - 1];
    }
    for (i = 0; i < 32; i++) { l[i] = b[rd_ip[i] - 1]; r[i] = b[rd_ip[32 + i] - 1]; }
    for (n = 0; n < 16; n++) {
        const unsigned char *kk = ks[dec ? 15 - n : n];
        for (i = 0; i < 8; i++) {
            int v = 0, s;
            for (j = 0; j < 6; j++)
                v = (v << 1) | (r[(4 * i + j + 31) % 32] ^ kk[6 * i + j]);
            s = flat[i][v & 63];
            for (j = 0; j < 4; j++) f[4 * i + j] = (s >> (3 - j)) & 1;
        }
        for (i = 0; i < 32; i++) t[i] = l[i] ^ f[rd_p[i] - 1];
        memcpy(l, r, 32);
        memcpy(r, t, 32);
    }
    for (i = 0; i < 8; i++) dst[i] = 0;
    for (i = 0; i < 64; i++) {
        int p = rd_ip[i] - 1;
        unsigned char v = i < 32 ? r[i] : l[i - 32];
        dst[p / 8] |= (unsigned char)(v << (7 - p % 8));
    }
}
#endif
