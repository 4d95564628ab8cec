/* Native side of vp.h: replays one counterexample against the real code. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "vp.h"

void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

#define HDR 32
typedef struct { size_t n; uint64_t magic; } hdr;

static int lib_heap;                 /* 1 while the harness runs */
static unsigned long nalloc, nlive, fail_at;
static int fillmode;

static void fill(unsigned char *p, size_t n)
{
    static uint32_t x = 0x2545F491;
    size_t i;
    for (i = 0; i < n; i++) {
        x ^= x << 13; x ^= x >> 17; x ^= x << 5;
        p[i] = fillmode == 0 ? 0xA5 : fillmode == 1 ? 0 : fillmode == 2 ? 0xFF : fillmode == 3 ? 1 : (unsigned char)(x >> 11);
    }
}

void *__wrap_malloc(size_t n)
{
    unsigned char *p;
    if (!lib_heap)
        return __real_malloc(n);
    if (n > ((size_t)1 << 31))
        return NULL;
    nalloc++;
    if (fail_at && nalloc == fail_at)
        return NULL;
    p = __real_malloc(n);
    if (p) {
        fill(p, n);
        nlive++;
    }
    return p;
}

void __wrap_free(void *p)
{
    if (lib_heap && p)
        nlive--;
    __real_free(p);
}

void *__wrap_calloc(size_t a, size_t b)
{
    void *p = __wrap_malloc(a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}

size_t malloc_usable_size(void *);

void *__wrap_realloc(void *p, size_t n)
{
    void *q;
    size_t m;
    if (!lib_heap)
        return __real_realloc(p, n);
    if (!p)
        return __wrap_malloc(n);
    m = malloc_usable_size(p);
    q = __wrap_malloc(n);
    if (!q)
        return NULL;
    memcpy(q, p, m < n ? m : n);
    __wrap_free(p);
    return q;
}

/* ---- replay file */
static struct { int w; unsigned char *v; } *ins;
static size_t nins, posin;
static unsigned long args[64];
static int nargs;
static int verbose;
typedef struct uft { char name[16]; int outw, keyw, inw; unsigned char *key, *in, *out; struct uft *next; } uft;
static uft *ufs;
static int ufmode;

static unsigned char *unhex(const char *s, int bytes)
{   /* big endian */
    unsigned char *p = __real_malloc(bytes + 1);
    int i;
    unsigned x;
    for (i = 0; i < bytes; i++) {
        sscanf(s + 2 * i, "%2x", &x);
        p[i] = x;
    }
    return p;
}

static void quit(int code, const char *what, const char *msg)
{
    printf("%s: %s\n", what, msg);
    fflush(stdout);
    _Exit(code);
}

static void getin(int w, void *p)
{   /* little endian */
    int i, n = w / 8;
    if (posin >= nins)
        quit(78, "REPLAY-ERROR", "out of inputs");
    if (ins[posin].w != w)
        quit(78, "REPLAY-ERROR", "input width");
    for (i = 0; i < n; i++)
        ((unsigned char *)p)[i] = ins[posin].v[n - 1 - i];
    posin++;
}

void vp_sym(void *p, size_t n) { size_t i; for (i = 0; i < n; i++) getin(8, (char *)p + i); }
void vp_word(void *p, size_t n) { getin(8 * n, p); }
uint8_t vp_u8(void) { uint8_t x; getin(8, &x); return x; }
uint16_t vp_u16(void) { uint16_t x; getin(16, &x); return x; }
uint32_t vp_u32(void) { uint32_t x; getin(32, &x); return x; }
uint64_t vp_u64(void) { uint64_t x; getin(64, &x); return x; }
int vp_choice(int lo, int hi) { int x; getin(32, &x); return x; }
void vp_assume(int c) { if (!c) quit(77, "ASSUME", "not satisfied by the replayed input"); }
void vp_check(int c, const char *msg) { if (!c) quit(42, "CHECK FAILED", msg); }
void vp_check_eq(const void *a, const void *b, size_t n, const char *msg)
{
    size_t i;
    const unsigned char *x = a, *y = b;
    for (i = 0; i < n; i++)
        if (x[i] != y[i]) {
            printf("byte %zu: %02x != %02x\n", i, x[i], y[i]);
            quit(42, "CHECK FAILED", msg);
        }
}
unsigned long vp_arg(int i) { return args[i]; }
unsigned long vp_conc(unsigned long v) { return v; }
void vp_nomerge(int on) { (void)on; }
unsigned long vp_live(void) { return nlive; }
unsigned long vp_allocs(void) { return nalloc; }
void vp_fail_alloc(unsigned long k) { fail_at = k ? nalloc + k : 0; }
void vp_reach(const char *l) { if (verbose) printf("reach %s\n", l); }

static uint64_t mix(uint64_t h, const unsigned char *p, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++) {
        h ^= p[i];
        h *= 0x100000001b3ULL;
        h ^= h >> 29;
    }
    return h;
}

static uft *find(const char *nm, const void *key, size_t kl, const void *in, size_t n)
{
    uft *u;
    for (u = ufs; u; u = u->next)
        if (!strcmp(u->name, nm) && (size_t)u->inw == n && !memcmp(u->in, in, n) &&
            ((size_t)u->keyw == kl || kl == 0) && (kl == 0 || !memcmp(u->key, key, kl)))
            return u;
    return NULL;
}

static void addu(const char *nm, const void *key, size_t kl, const void *in, size_t n, const void *out, size_t m)
{
    uft *u = __real_malloc(sizeof(*u));
    strncpy(u->name, nm, 15); u->name[15] = 0;
    u->keyw = kl; u->inw = n; u->outw = m;
    u->key = __real_malloc(kl + 1); memcpy(u->key, key, kl);
    u->in = __real_malloc(n + 1); memcpy(u->in, in, n);
    u->out = __real_malloc(m + 1); memcpy(u->out, out, m);
    u->next = ufs;
    ufs = u;
}

void vp_uf(const char *name, const void *in, size_t n, void *out, size_t m)
{
    uft *u = ufmode ? find(name, NULL, 0, in, n) : NULL;
    size_t i;
    uint64_t h;
    if (u) {
        memcpy(out, u->out, m);
        return;
    }
    h = mix(0xcbf29ce484222325ULL, (const unsigned char *)name, strlen(name));
    h = mix(h, in, n);
    for (i = 0; i < m; i++) {
        unsigned char c = (unsigned char)i;
        h = mix(h, &c, 1);
        ((unsigned char *)out)[i] = h >> 17;
    }
}

static void feistel(int dir, const unsigned char *key, size_t kl, unsigned char *b, size_t n)
{
    int r;
    size_t i, h = n / 2;
    for (r = 0; r < 6; r++) {
        int rr = dir ? 5 - r : r;
        unsigned char *l = (rr & 1) ? b : b + h, *o = (rr & 1) ? b + h : b;
        uint64_t x = mix(mix(0xcbf29ce484222325ULL + rr, key, kl), l, h);
        for (i = 0; i < h; i++) {
            unsigned char c = (unsigned char)i;
            x = mix(x, &c, 1);
            o[i] ^= x >> 17;
        }
    }
}

void vp_perm(int dir, const void *key, size_t kl, const void *in, void *out, size_t n)
{
    unsigned char b[64], i0[64], nm[16], no[16];
    uft *u;
    memcpy(b, in, n);
    memcpy(i0, in, n);
    if (!ufmode) {
        feistel(dir, key, kl, b, n);
        memcpy(out, b, n);
        return;
    }
    sprintf((char *)nm, "%c%d", dir ? 'D' : 'E', (int)n);
    sprintf((char *)no, "%c%d", dir ? 'E' : 'D', (int)n);
    if ((u = find((char *)nm, key, kl, b, n)) != NULL) {
        memcpy(b, u->out, n);
    } else {
        feistel(dir, key, kl, b, n);
        addu((char *)nm, key, kl, i0, n, b, n);
    }
    if (!find((char *)no, key, kl, b, n))
        addu((char *)no, key, kl, b, n, i0, n);
    memcpy(out, b, n);
}


int main(int argc, char **argv)
{   /* native ENTRY REPLAY [fillmode [ufmode]] */
    FILE *f;
    void (*entry)(void);
    static char line[1 << 16];
    if (argc < 3)
        return 2;
    fillmode = argc > 3 ? atoi(argv[3]) : 0;
    ufmode = argc > 4 ? atoi(argv[4]) : 0;
    verbose = getenv("VP_VERBOSE") != NULL;
    if ((f = fopen(argv[2], "r")) == NULL)
        return 2;
    ins = __real_malloc(sizeof(*ins) << 20);
    while (fgets(line, sizeof(line), f)) {
        static char h1[1 << 15], h2[1 << 15], h3[1 << 15];
        char nm[32];
        int w, kw, ow;
        unsigned long a;
        if (sscanf(line, "arg %lu", &a) == 1)
            args[nargs++] = a;
        else if (sscanf(line, "in %d %32000s", &w, h1) == 2) {
            ins[nins].w = w;
            ins[nins++].v = unhex(h1, w / 8);
        } else if (sscanf(line, "uf %30s %d %32000s %d %32000s %d %32000s", nm, &kw, h1, &w, h2, &ow, h3) == 7) {
            addu(nm, unhex(h1, kw), kw, unhex(h2, w), w, unhex(h3, ow), ow);
        }
    }
    fclose(f);
    entry = (void (*)(void))dlsym(NULL, argv[1]);
    if (!entry)
        return 2;
    lib_heap = 1;
    entry();
    lib_heap = 0;
    printf("DONE\n");
    return 0;
}
