/* Monitor runtime: seeded cases, oracles' CHECK, observation digests, step budgets, traces. */
#ifndef MON_H
#define MON_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <setjmp.h>

typedef struct mon_alloc_s {
    struct mon_alloc_s *next;
    void               *p, *guard;
    int                 lib;
} mon_alloc_t;

typedef struct mon_ctx {
    uint64_t     s[2];       /* case generator */
    uint64_t     fs;         /* fill generator, separate so that fills never change the case */
    uint64_t     digest;
    uint64_t     events;     /* observations checked */
    uint64_t     ops;        /* API calls made */
    uint64_t     steps, budget;
    int          violated, nontrivial, tracing, fill;
    char         key[160], msg[700];
    jmp_buf      jb;
    mon_alloc_t *allocs;
    void        *user;       /* the driver's own state (callbacks find it here) */
    char        *trace;
    size_t       tlen, tcap;
    struct mon_set *states, *nt;
    void       (*yield)(struct mon_ctx *);
    void        *yarg;
    int          thorough;
    uint64_t     caseno;
    unsigned     calm;       /* how much rarer than usual resets are in this history (0: there are none) */
    int          alloc_ok;   /* inside a call documented to allocate */
} mon_ctx;

extern _Thread_local mon_ctx *MON;

typedef struct {
    const char *id;
    void (*fn)(void);
    const char *rule;
} mon_driver_t;

#define MON_CAT_(a, b) a##b
#define MON_CAT(a, b) MON_CAT_(a, b)
/* Registers a driver: a case function for a property. */
#define DRIVER(ID, FN, RULE)                                                                                           \
    static const mon_driver_t MON_CAT(mon_drv_, FN) = {ID, FN, RULE};                                                  \
    __attribute__((constructor)) static void MON_CAT(mon_reg_, FN)(void) {                                             \
        mon_register(&MON_CAT(mon_drv_, FN));                                                                          \
    }
void mon_register(const mon_driver_t *d);

/* ---- generator ---- */
uint64_t rnd(void);
extern unsigned mon_ndict;          /* integer literals of the code under test: they steer the choice of values, never a verdict */
uint64_t        mon_dict_pick(uint64_t n, uint64_t r);
static inline uint32_t rn(uint64_t n) { /* [0, n) */
    if (!n)
        return 0;
    uint64_t r = rnd();
    if (n > 64 && mon_ndict && r >> 60 == 0)
        return (uint32_t)mon_dict_pick(n, r);
    return (uint32_t)(r % n);
}
static inline uint64_t rn64(uint64_t n) { return n ? rnd() % n : 0; } /* the full width */
static inline int64_t  rr(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + rnd() % ((uint64_t)(hi - lo) + 1)); }
static inline int      chance(unsigned a, unsigned b) { return rnd() % b < a; }
/* the length of a history: now and then a very long one, rarely one in which every 16-bit count overflows */
#ifndef MARATHON
#define MARATHON 4800
#endif
static inline int mon_long(int n) {
    int m     = chance(1, 400) ? n * 16 + (int)rn(2000) : chance(1, MARATHON) ? 66000 + (int)rn(70000) : n;
    MON->calm = chance(1, m > n ? 2 : 4) ? 0 : m > n ? (unsigned)m / 64 : 1;
    return m;
}
/* for operations that make the object forget its past: as frequent as `chance` in short histories, rare or absent in long ones */
static inline int seldom(unsigned a, unsigned b) { return MON->calm ? chance(a, b * MON->calm) : 0; }
uint64_t               rskew(uint64_t max);   /* [0, max], biased to small values and to the maximum */
void                   mon_hang(void);
extern void (*mon_env_hook)(int), (*mon_report_hook)(void);
uint64_t               rbits(unsigned bits);  /* interesting bit patterns of the given width */

/* ---- observation and verdicts ---- */
__attribute__((noreturn, format(printf, 2, 3))) void mon_fail(const char *key, const char *fmt, ...);
__attribute__((noreturn)) void mon_abandon(void); /* ends the case without a verdict */
__attribute__((format(printf, 1, 2))) void mon_trace(const char *fmt, ...);
void mon_op(uint64_t budget);
void mon_obs(uint64_t v);
void mon_obs_mem(const void *p, size_t n);
void mon_state(uint64_t h);
static inline void mon_nontrivial(void) { MON->nontrivial = 1; }
void *mon_alloc(size_t n);  /* exact-size heap block holding the case's fill pattern; freed after the case */
void *mon_zalloc(size_t n); /* the same, zeroed (for the harness' own state) */

/* Buffers handed to the library: exact heap blocks under AddressSanitizer, canaries on both sides otherwise. */
void *mon_guard(size_t n);                 /* fill-pattern content */
void  mon_guard_check(const void *p, const char *what);
void  mon_guard_free(void *p, const char *what); /* checks, then frees */
/* What the library's own malloc/calloc/realloc/free become (-Dmalloc=mon_lib_malloc ...): tracked per case, filled
   with the case's pattern, exact blocks with guards; freed after the case. */
void  *mon_lib_malloc(size_t n);
void  *mon_lib_calloc(size_t n, size_t m);
void  *mon_lib_realloc(void *p, size_t n);
void   mon_lib_free(void *p);
size_t mon_lib_live(void); /* number of blocks the library holds */
/* A call documented to allocate (X05 reports any other that does). */
#define ALLOCATES(...)                                                                                                 \
    do {                                                                                                               \
        MON->alloc_ok++;                                                                                               \
        __VA_ARGS__;                                                                                                   \
        MON->alloc_ok--;                                                                                               \
    } while (0)
/* the same bytes, whether or not they were ever written (for images taken by the harness itself) */
int mon_same(const void *a, const void *b, size_t n);
/* bytes of element number n, any size */
void mon_elem(void *dst, size_t esz, uint64_t n);
int  mon_elem_is(const void *p, size_t esz, uint64_t n);

#define TR(...)                                                                                                        \
    do {                                                                                                               \
        if (MON->tracing)                                                                                              \
            mon_trace(__VA_ARGS__);                                                                                    \
    } while (0)
/* Announces an API call: trace line, step budget, scheduling point of the interleaved mode. */
#define OP(...)                                                                                                        \
    do {                                                                                                               \
        mon_op(1u << 20);                                                                                              \
        TR(__VA_ARGS__);                                                                                               \
    } while (0)
#define OPB(BUDGET, ...)                                                                                               \
    do {                                                                                                               \
        mon_op(BUDGET);                                                                                                \
        TR(__VA_ARGS__);                                                                                               \
    } while (0)
#define CHECK(cond, key, ...)                                                                                          \
    do {                                                                                                               \
        MON->events++;                                                                                                 \
        if (!(cond))                                                                                                   \
            mon_fail(key, __VA_ARGS__);                                                                                \
    } while (0)
#define CHECK_EQ(got, want, key, what)                                                                                 \
    do {                                                                                                               \
        long long mon_g = (long long)(got), mon_w = (long long)(want);                                                 \
        MON->events++;                                                                                                 \
        mon_obs((uint64_t)mon_g);                                                                                      \
        if (mon_g != mon_w)                                                                                            \
            mon_fail(key, "%s: got %lld, expected %lld", what, mon_g, mon_w);                                          \
    } while (0)
#define OBS(v) mon_obs((uint64_t)(v))

static inline uint64_t mon_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

#endif
