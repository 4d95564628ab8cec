/* Primitives of the harnesses: symbolic under the engine, read from a replay file natively. */
#ifndef VP_H_
#define VP_H_
#include <stddef.h>
#include <stdint.h>
void vp_sym(void *p, size_t n);                 /* n arbitrary bytes */
void vp_word(void *p, size_t n);                /* one arbitrary n-byte word (n <= 8) */
uint8_t vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
int vp_choice(int lo, int hi);                  /* arbitrary value, explored one by one */
void vp_assume(int c);
void vp_check(int c, const char *msg);
void vp_check_eq(const void *a, const void *b, size_t n, const char *msg);
unsigned long vp_arg(int i);                    /* parameters of the job (case split) */
void vp_uf(const char *name, const void *in, size_t inlen, void *out, size_t outlen);
void vp_perm(int dir, const void *key, size_t klen, const void *in, void *out, size_t n);
void vp_fail_alloc(unsigned long k);            /* k-th allocation from now fails (0: none) */
unsigned long vp_live(void);                    /* live heap blocks */
unsigned long vp_allocs(void);
void vp_reach(const char *label);
void vp_nomerge(int on);                        /* keep paths with different concrete sizes apart */
unsigned long vp_conc(unsigned long v);         /* case split on the value */
#endif
