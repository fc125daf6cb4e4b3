#define _GNU_SOURCE
#include "mon.h"
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <pthread.h>
#include <ucontext.h>
#include <assert.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MON_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif

_Thread_local mon_ctx *MON;

/* ------------------------------------------------------------------ registry */
static const mon_driver_t *drivers[128];
static int                 ndrivers;
void mon_register(const mon_driver_t *d) { drivers[ndrivers++] = d; }
static int drv_cmp(const void *a, const void *b) {
    return strcmp((*(const mon_driver_t **)a)->id, (*(const mon_driver_t **)b)->id);
}

/* ------------------------------------------------------------------ hash sets */
typedef struct mon_set {
    uint64_t *tab;
    size_t    n, cap, max;
} mon_set;
static mon_set *set_new(size_t max) {
    mon_set *s = calloc(1, sizeof *s);
    s->cap     = 1024;
    s->max     = max;
    s->tab     = calloc(s->cap, 8);
    return s;
}
static void set_add(mon_set *s, uint64_t h) {
    if (!s)
        return;
    if (h == 0)
        h = 1;
    size_t i = h & (s->cap - 1);
    while (s->tab[i]) {
        if (s->tab[i] == h)
            return;
        i = (i + 1) & (s->cap - 1);
    }
    if (s->n >= s->max)
        return;
    s->tab[i] = h;
    if (++s->n * 2 > s->cap) {
        uint64_t *old = s->tab;
        size_t    oc  = s->cap;
        s->cap *= 2;
        s->tab = calloc(s->cap, 8);
        for (size_t k = 0; k < oc; k++)
            if (old[k]) {
                size_t j = old[k] & (s->cap - 1);
                while (s->tab[j])
                    j = (j + 1) & (s->cap - 1);
                s->tab[j] = old[k];
            }
        free(old);
    }
}
static void set_dump(mon_set *s, const char *path) {
    FILE *f = fopen(path, "wb");
    if (!f)
        return;
    for (size_t i = 0; i < s->cap; i++)
        if (s->tab[i])
            fwrite(&s->tab[i], 8, 1, f);
    fclose(f);
}

/* ------------------------------------------------------------------ generator */
static uint64_t splitmix(uint64_t *x) {
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
/* In byte-driven mode (libFuzzer) choices come from the input first. */
static _Thread_local const uint8_t *fz_p, *fz_end;
__attribute__((no_sanitize("undefined"))) uint64_t rnd(void) {
    mon_ctx *m = MON;
    if (fz_p && fz_p < fz_end) {
        uint64_t v = 0;
        int      n = 2;
        while (n-- && fz_p < fz_end)
            v = (v << 8) | *fz_p++;
        return v ^ (v << 23) ^ (v << 47);
    }
    uint64_t a = m->s[0], b = m->s[1], r = a + b;
    b ^= a;
    m->s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    m->s[1] = (b << 37) | (b >> 27);
    return r ^ (r >> 29);
}
unsigned        mon_ndict;
static uint64_t dict[512];
static void load_dict(void) {
    const char *e = getenv("MON_DICT");
    while (e && *e && mon_ndict < sizeof dict / sizeof *dict) {
        char *end;
        dict[mon_ndict++] = strtoull(e, &end, 10);
        e = *end == ',' ? end + 1 : "";
    }
}
uint64_t mon_dict_pick(uint64_t n, uint64_t r) {
    for (int tries = 0; tries < 4; tries++) {
        uint64_t q = rnd(), v = dict[q % mon_ndict] + (q >> 40) % 4 - 1; /* one less, itself, one and two more */
        if (v < n)
            return v;
    }
    return r % n;
}
uint64_t rskew(uint64_t max) {
    if (max > 64 && mon_ndict && chance(1, 12))
        return mon_dict_pick(max == UINT64_MAX ? max : max + 1, rnd());
    switch (rn(6)) {
        case 0: return max;
        case 1: return max ? max - 1 : 0;
        case 2: return rnd() % (max / 2 + 1);
        case 3: {
            uint64_t m = max < 4 ? max : 4;
            return rnd() % (m + 1);
        }
        default: return max == UINT64_MAX ? rnd() : rnd() % (max + 1);
    }
}
uint64_t rbits(unsigned bits) {
    uint64_t mask = bits >= 64 ? UINT64_MAX : ((1ull << bits) - 1), v;
    if (mon_ndict && chance(1, 12)) {
        v = mon_dict_pick(UINT64_MAX, rnd());
        return (chance(1, 4) ? (uint64_t)0 - v : v) & mask;
    }
    switch (rn(8)) {
        case 0: v = 0; break;
        case 1: v = mask; break;
        case 2: v = (mask >> 1) + rn(3) - 1; break;
        case 3: v = 1ull << rn(bits); break;
        case 4: v = mask ^ (1ull << rn(bits)); break;
        case 5: v = rn(16); break;
        case 6: v = (uint64_t)0 - rn(16); break;
        default: v = rnd(); break;
    }
    return v & mask;
}

/* ------------------------------------------------------------------ observation */
void mon_abandon(void) {
    longjmp(MON->jb, 1);
}
void mon_obs(uint64_t v) {
#ifdef MON_MSAN
    __msan_check_mem_is_initialized(&v, sizeof v);
#endif
    MON->digest = mon_mix(MON->digest, v);
}
void mon_obs_mem(const void *p, size_t n) {
    const uint8_t *b = p;
    for (size_t i = 0; i < n; i++)
        mon_obs(b[i]);
}
#ifdef MON_MSAN
__attribute__((no_sanitize("memory"), noinline))
#endif
int mon_same(const void *a, const void *b, size_t n) {
    const volatile uint8_t *x = a, *y = b;
    uint8_t                 d = 0;
    for (size_t i = 0; i < n; i++)
        d |= x[i] ^ y[i];
#ifdef MON_MSAN
    __msan_unpoison(&d, 1);
#endif
    return d == 0;
}
void mon_state(uint64_t h) { set_add(MON->states, mon_mix(0x1234, h)); }
void mon_trace(const char *fmt, ...) {
    mon_ctx *m = MON;
    char     line[600];
    va_list  ap;
    va_start(ap, fmt);
    int n = vsnprintf(line, sizeof line - 1, fmt, ap);
    va_end(ap);
    if (n < 0)
        return;
    if (n > (int)sizeof line - 2)
        n = sizeof line - 2;
    line[n++] = '\n';
    if (m->tlen + n + 1 > m->tcap) {
        m->tcap  = (m->tcap + n) * 2 + 4096;
        m->trace = realloc(m->trace, m->tcap);
    }
    memcpy(m->trace + m->tlen, line, n);
    m->tlen += n;
    m->trace[m->tlen] = 0;
}
void mon_fail(const char *key, const char *fmt, ...) {
    mon_ctx *m = MON;
    va_list  ap;
    va_start(ap, fmt);
    vsnprintf(m->msg, sizeof m->msg, fmt, ap);
    va_end(ap);
    snprintf(m->key, sizeof m->key, "%s", key);
    m->violated = 1;
    TR("!! %s: %s", m->key, m->msg);
    longjmp(m->jb, 1);
}
void mon_op(uint64_t budget) {
    mon_ctx *m = MON;
    m->ops++;
    if (m->yield) {
        m->yield(m);
        m = MON;
    }
    if (mon_env_hook) mon_env_hook(-1);
    m->steps  = 0;
    m->budget = budget < (1u << 22) ? (1u << 22) : budget * 4; /* a rewritten routine may take many more steps */
}
static void mon_dead(const char *key, const char *what) { mon_fail(key, "%s", what); }

/* ------------------------------------------------------------------ allocation */
static uint8_t fill_byte(void) {
    mon_ctx *m = MON;
    switch (m->fill) {
        case 1: return 0x00;
        case 2: return 0xFF;
        case 3: return 0xA5;
        default: return (uint8_t)(splitmix(&m->fs) >> 13);
    }
}
void *mon_zalloc(size_t n) {
    mon_alloc_t *a = calloc(1, sizeof *a);
    a->p           = calloc(1, n ? n : 1);
    a->guard       = NULL;
    a->next        = MON->allocs;
    MON->allocs    = a;
    return a->p;
}
void *mon_alloc(size_t n) {
    mon_alloc_t *a = calloc(1, sizeof *a);
    a->p           = malloc(n);
    a->guard       = NULL;
    a->next        = MON->allocs;
    MON->allocs    = a;
    if (MON->fill != 4) /* 4: leave it to MemorySanitizer */
        for (size_t i = 0; i < n; i++)
            ((uint8_t *)a->p)[i] = fill_byte();
    return a->p;
}

#if defined(__SANITIZE_ADDRESS__)
#define MON_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MON_ASAN 1
#endif
#endif
#ifdef MON_ASAN
#define GUARD 0
#else
#define GUARD 32
#endif
typedef struct guard_s {
    size_t   n;
    uint8_t *blk;
} guard_t;
static guard_t *guard_of(const void *p) {
    for (mon_alloc_t *a = MON->allocs; a; a = a->next)
        if (a->guard && ((guard_t *)a->guard)->blk + GUARD == (const uint8_t *)p)
            return a->guard;
    return NULL;
}
void *mon_guard(size_t n) {
    mon_alloc_t *a = calloc(1, sizeof *a);
    guard_t     *g = malloc(sizeof *g);
    g->n           = n;
    g->blk         = malloc(n + 2 * GUARD);
    a->p           = g->blk;
    a->guard       = g;
    a->next        = MON->allocs;
    MON->allocs    = a;
    for (size_t i = 0; i < GUARD; i++)
        g->blk[i] = (uint8_t)(0xC3 + i), g->blk[GUARD + n + i] = (uint8_t)(0x5B + i);
    if (MON->fill != 4)
        for (size_t i = 0; i < n; i++)
            g->blk[GUARD + i] = fill_byte();
    return g->blk + GUARD;
}
void mon_guard_check(const void *p, const char *what) {
    guard_t *g = guard_of(p);
    if (!g)
        return;
    for (size_t i = 0; i < GUARD; i++)
        if (g->blk[i] != (uint8_t)(0xC3 + i) || g->blk[GUARD + g->n + i] != (uint8_t)(0x5B + i))
            mon_fail("outside-write", "%s: memory %s the buffer was overwritten", what,
                     g->blk[i] != (uint8_t)(0xC3 + i) ? "before" : "after");
}
void mon_guard_free(void *p, const char *what) {
    mon_guard_check(p, what);
    for (mon_alloc_t **pp = &MON->allocs; *pp; pp = &(*pp)->next)
        if ((*pp)->guard && ((guard_t *)(*pp)->guard)->blk + GUARD == (uint8_t *)p) {
            mon_alloc_t *a = *pp;
            *pp            = a->next;
            free(a->p);
            free(a->guard);
            free(a);
            return;
        }
}
static mon_alloc_t *lib_of(const void *p) {
    for (mon_alloc_t *a = MON->allocs; a; a = a->next)
        if (a->lib && ((guard_t *)a->guard)->blk + GUARD == (const uint8_t *)p)
            return a;
    return NULL;
}
static int      opt_services; /* X05 */
static uint64_t n_allocs;     /* by calls documented to allocate */
void (*mon_env_hook)(int);    /* X07: the environment is entered (1), left (0), or a case begins (-1) */
void (*mon_report_hook)(void);
static int opt_cost;
void *mon_lib_malloc(size_t n) {
    if (MON && opt_services && !MON->alloc_ok)
        mon_fail("service:allocation", "a call that is not documented to allocate asked for %zu bytes of dynamic memory", n);
    __atomic_fetch_add(&n_allocs, 1, __ATOMIC_RELAXED);
    if (!MON || n > (sizeof n > 4 ? (size_t)((uint64_t)1 << 40) : (size_t)1 << 28))
        return NULL;
    if (mon_env_hook) mon_env_hook(1);
    void *p          = mon_guard(n);
    MON->allocs->lib = 1;
    if (mon_env_hook) mon_env_hook(0);
    return p;
}
void *mon_lib_calloc(size_t n, size_t m) {
    void *p = mon_lib_malloc(n * m);
    if (p)
        memset(p, 0, n * m);
    return p;
}
void *mon_lib_realloc(void *p, size_t n) {
    if (!p)
        return mon_lib_malloc(n);
    mon_alloc_t *a = lib_of(p);
    if (!a)
        mon_fail("bad-free", "realloc of a pointer that is not an allocated block");
    void  *q = mon_lib_malloc(n);
    size_t o = ((guard_t *)a->guard)->n;
    memcpy(q, p, o < n ? o : n);
    mon_lib_free(p);
    return q;
}
void mon_lib_free(void *p) {
    if (!p)
        return;
    if (mon_env_hook) mon_env_hook(1);
    if (!lib_of(p))
        mon_fail("bad-free", "free of a pointer that is not an allocated block");
    mon_guard_free(p, "allocated block");
    if (mon_env_hook) mon_env_hook(0);
}
/* the environment's services, as the library's objects see them in the X05 builds */
static void outside(const char *what) {
    static char key[64];
    snprintf(key, sizeof key, "service:%s", what);
    if (!MON)
        abort();
    mon_fail(key, "the library called %s", what);
}
#define OUTSIDE(F)                                                                                                     \
    void mon_out_##F(void);                                                                                            \
    void mon_out_##F(void) {                                                                                           \
        outside(#F);                                                                                                   \
    }
#include "outside.h"
size_t mon_lib_live(void) {
    size_t n = 0;
    for (mon_alloc_t *a = MON->allocs; a; a = a->next)
        n += a->lib;
    return n;
}
void mon_elem(void *dst, size_t esz, uint64_t n) {
    uint64_t h = (n + 1) * 0x9e3779b97f4a7c15ull;
    uint8_t *d = dst;
    for (size_t i = 0; i < esz; i++) {
        d[i] = (uint8_t)(h >> 56);
        h    = h * 0xd6e8feb86659fd93ull + 0x1234567;
    }
}
int mon_elem_is(const void *p, size_t esz, uint64_t n) {
    uint64_t       h = (n + 1) * 0x9e3779b97f4a7c15ull;
    const uint8_t *d = p;
    for (size_t i = 0; i < esz; i++) {
        if (d[i] != (uint8_t)(h >> 56))
            return 0;
        h = h * 0xd6e8feb86659fd93ull + 0x1234567;
    }
    return 1;
}

void mon_hang(void) {
    MON->budget = 0;
    mon_dead("hang", "a call executed more basic blocks than its step budget: it does not terminate");
}
/* ------------------------------------------------------------------ coverage callbacks (library code only) */
static uint8_t *edge_hit;
static uint32_t edge_n;
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start)
        return;
    for (uint32_t *x = start; x < stop; x++)
        *x = ++edge_n;
    edge_hit = realloc(edge_hit, edge_n + 1);
    memset(edge_hit, 0, edge_n + 1);
}
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    mon_ctx *m = MON;
    if (edge_hit && !edge_hit[*guard])
        edge_hit[*guard] = 1;
    if (!m)
        return;
    if (++m->steps > m->budget && m->budget) {
        mon_hang();
    }
}

/* ------------------------------------------------------------------ running cases */
static const char *opt_variant = "";
static uint64_t    opt_seed = 1;
static int         opt_fill, opt_thorough;

static uint64_t hash_str(const char *s) {
    uint64_t h = 0xcbf29ce484222325ull;
    while (*s)
        h = (h ^ (uint8_t)*s++) * 0x100000001b3ull;
    return h;
}
static void ctx_begin(mon_ctx *m, const mon_driver_t *d, uint64_t cs) {
    uint64_t x  = opt_seed * 0x9e3779b97f4a7c15ull ^ hash_str(d->id) ^ (hash_str(opt_variant) << 1) ^ (cs * 0xd6e8feb86659fd93ull);
    m->s[0]     = splitmix(&x);
    m->s[1]     = splitmix(&x) | 1;
    m->fs       = splitmix(&x);
    m->digest   = 0;
    m->violated = m->nontrivial = 0;
    m->allocs   = NULL;
    m->user     = NULL;
    m->steps    = 0;
    m->budget   = 1u << 22;
    m->fill     = opt_fill;
    m->thorough = opt_thorough;
    m->caseno   = cs;
    m->alloc_ok = 0;
    m->calm     = 1;
    if (mon_env_hook) mon_env_hook(-1);
}
static void ctx_end(mon_ctx *m) {
    while (m->allocs) {
        mon_alloc_t *a = m->allocs;
        m->allocs      = a->next;
        free(a->p);
        free(a->guard);
        free(a);
    }
    m->budget = 0;
}
/* Runs one case in the context m; returns 1 on a violation. */
static int run_case(mon_ctx *m, const mon_driver_t *d, uint64_t cs) {
    MON = m;
    ctx_begin(m, d, cs);
    if (setjmp(m->jb) == 0)
        d->fn();
    ctx_end(MON);
    return MON->violated;
}

static const mon_driver_t *find(const char *id) {
    for (int i = 0; i < ndrivers; i++)
        if (!strcmp(drivers[i]->id, id))
            return drivers[i];
    return NULL;
}

/* ---- interleaved mode: cases as coroutines on one thread (X03) ---- */
typedef struct {
    ucontext_t          uc;
    mon_ctx            *m;
    const mon_driver_t *d;
    uint64_t            cs;
    int                 done;
} co_t;
static co_t       co[16];
static int        nco, co_cur;
static ucontext_t co_main;
static uint64_t   co_rng, co_switches;
static void co_yield(mon_ctx *m) {
    (void)m;
    int from = co_cur, live[16], n = 0;
    for (int i = 0; i < nco; i++)
        if (!co[i].done)
            live[n++] = i;
    int to = live[splitmix(&co_rng) % n];
    if (to == from)
        return;
    co_switches++;
    co_cur = to;
    MON    = co[to].m;
    swapcontext(&co[from].uc, &co[to].uc);
    MON = co[co_cur].m;
}
static void co_entry(int i) {
    MON = co[i].m;
    if (setjmp(co[i].m->jb) == 0)
        co[i].d->fn();
    co[i].done = 1;
    for (int k = 0; k < nco; k++)
        if (!co[k].done) {
            co_cur = k;
            MON    = co[k].m;
            setcontext(&co[k].uc);
        }
    setcontext(&co_main);
}

/* ---- threaded mode ---- */
typedef struct {
    int                 tid, n;
    const mon_driver_t **ds;
    uint64_t           *cs, *digest;
    int                *viol;
    pthread_barrier_t  *bar;
} thr_t;
static void *thr_main(void *arg) {
    thr_t   *t = arg;
    mon_ctx *m = calloc(1, sizeof *m);
    pthread_barrier_wait(t->bar);
    for (int i = 0; i < t->n; i++) {
        t->viol[i]   = run_case(m, t->ds[i], t->cs[i]);
        t->digest[i] = m->digest;
    }
    MON = NULL;
    free(m);
    return NULL;
}

static void print_esc(const char *tag, const char *text) {
    for (const char *p = text; p && *p;) {
        const char *e = strchr(p, '\n');
        size_t      n = e ? (size_t)(e - p) : strlen(p);
        printf("%s %.*s\n", tag, (int)n, p);
        p += n + (e ? 1 : 0);
    }
}

static int trace_case(const mon_driver_t *d, uint64_t cs, const char *tag) {
    mon_ctx *m = calloc(1, sizeof *m);
    m->tracing = 1;
    int v      = run_case(m, d, cs);
    if (m->tlen > 40000) { /* keep the beginning and the end */
        char *t = malloc(40200);
        memcpy(t, m->trace, 8000);
        strcpy(t + 8000, "\n[...]\n");
        strcpy(t + 8007, m->trace + m->tlen - 32000);
        print_esc(tag, t);
        free(t);
    } else if (m->trace)
        print_esc(tag, m->trace);
    free(m->trace);
    free(m);
    return v;
}

/* A case that uses far more processor time than any case needs does not terminate. */
static volatile uint64_t *wd_cr;
static int                wd_limit;
static void wd_tick(int sig) {
    static uint64_t last[2], n;
    (void)sig;
    if (wd_cr[0] != last[0] || wd_cr[1] != last[1]) {
        last[0] = wd_cr[0];
        last[1] = wd_cr[1];
        n       = 0;
    } else if (wd_cr[0] && ++n >= (uint64_t)wd_limit) {
        static const char t[] = "@@HANG one case used its whole allowance of processor time\n";
        if (write(2, t, sizeof t - 1) < 0)
            _exit(98);
        _exit(98);
    }
}
static void watchdog(volatile uint64_t *cr, int limit) {
    struct itimerval t = {{1, 0}, {1, 0}};
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    wd_cr         = cr;
    wd_limit      = limit;
    sa.sa_handler = wd_tick;
    sa.sa_flags   = SA_RESTART;
    sa.sa_flags |= SA_ONSTACK;
    sigaction(SIGPROF, &sa, NULL);
    setitimer(ITIMER_PROF, &t, NULL);
}

/* The time of the run is over (the machine is slow or busy): what was not run is reported as not run. */
static int late(time_t until, uint64_t *cut) {
    if (until && time(NULL) >= until)
        *cut = 1;
    return (int)*cut;
}
int main(int argc, char **argv) {
    const char *prop = NULL, *crumb = NULL, *setout = NULL, *mode = "run";
    uint64_t    from = 0, to = 1, stride = 1, group = 4;
    int         ignore = 0, digests = 0, wd = 0;
    time_t      until = 0, stay = 0;
    load_dict();
    qsort(drivers, ndrivers, sizeof drivers[0], drv_cmp);
    for (int i = 1; i < argc; i++) {
#define ARG(n) (!strcmp(argv[i], n) && i + 1 < argc)
        if (ARG("--prop")) prop = argv[++i];
        else if (ARG("--seed")) opt_seed = strtoull(argv[++i], 0, 0);
        else if (ARG("--from")) from = strtoull(argv[++i], 0, 0);
        else if (ARG("--to")) to = strtoull(argv[++i], 0, 0);
        else if (ARG("--stride")) stride = strtoull(argv[++i], 0, 0);
        else if (ARG("--group")) group = strtoull(argv[++i], 0, 0);
        else if (ARG("--fill")) opt_fill = atoi(argv[++i]);
        else if (ARG("--variant")) opt_variant = argv[++i];
        else if (ARG("--crumb")) crumb = argv[++i];
        else if (ARG("--sets")) setout = argv[++i];
        else if (ARG("--wd")) wd = atoi(argv[++i]); /* processor seconds a case may take */
        else if (ARG("--until")) until = (time_t)strtoull(argv[++i], 0, 0); /* no new case after this moment */
        else if (ARG("--for")) stay = atoi(argv[++i]); /* ... nor after so many seconds of this process */
        else if (ARG("--mode")) mode = argv[++i];
        else if (!strcmp(argv[i], "--thorough")) opt_thorough = 1;
        else if (!strcmp(argv[i], "--ignore")) ignore = 1;   /* behavioural verdicts do not count here */
        else if (!strcmp(argv[i], "--services")) ignore = opt_services = 1; /* only forbidden services count */
        else if (!strcmp(argv[i], "--cost")) ignore = opt_cost = 1; /* only the cost of calls counts */
        else if (!strcmp(argv[i], "--digests")) digests = 1; /* print the digest of every case */
        else if (!strcmp(argv[i], "--list")) {
            for (int k = 0; k < ndrivers; k++)
                printf("%s\t%s\n", drivers[k]->id, drivers[k]->rule);
            return 0;
        } else {
            fprintf(stderr, "bad argument %s\n", argv[i]);
            return 2;
        }
    }
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    uint64_t  dummy[8] = {0};
    volatile uint64_t *cr = dummy;
    if (crumb) {
        int fd = open(crumb, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 64) == 0) {
            void *p = mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED)
                cr = p;
        }
    }

    if (!strcmp(mode, "trace")) {
        const mon_driver_t *d = prop ? find(prop) : NULL;
        if (!d)
            return 2;
        dummy[0] = 1;
        watchdog(dummy, 10);
        printf("@@R %d\n", trace_case(d, from, "@@T"));
        fflush(stdout);
        return 0;
    }

    mon_ctx *m = calloc(1, sizeof *m);
    m->states  = set_new(300000);
    m->nt      = set_new(300000);
    uint64_t evals = 0, nviol = 0, events = 0, cut = 0;
    if (stay && (!until || time(NULL) + stay < until))
        until = time(NULL) + stay;
    watchdog(cr, wd ? wd : strcmp(mode, "threads") ? 20 : 60);

    if (!strcmp(mode, "run")) {
        for (int k = 0; k < ndrivers; k++) {
            const mon_driver_t *d = drivers[k];
            if (prop && strcmp(prop, d->id))
                continue;
            char   seen[8][160];
            int    nseen = 0;
            for (uint64_t c = from; c < to && !late(until, &cut); c += stride) {
                cr[0] = c + 1;
                cr[1] = (uint64_t)k;
                int v = run_case(m, d, c);
                evals++;
                if (m->nontrivial)
                    set_add(m->nt, mon_mix(m->digest, hash_str(d->id)));
                if (digests)
                    printf("@@D %s %llu %016llx %d\n", d->id, (unsigned long long)c, (unsigned long long)m->digest, v);
                if (v && (!ignore || (opt_services && !strncmp(m->key, "service:", 8)) || (opt_cost && !strncmp(m->key, "cost:", 5)))) {
                    int known = 0;
                    nviol++;
                    for (int s = 0; s < nseen; s++)
                        known |= !strcmp(seen[s], m->key);
                    if (!known && nseen < 8) {
                        strcpy(seen[nseen++], m->key);
                        printf("@@V %s\t%llu\t%s\t%s\n", d->id, (unsigned long long)c, m->key, m->msg);
                        mon_ctx keep = *m;
                        if (!trace_case(d, c, "@@T"))
                            printf("@@T (the violation did not repeat when the case was run again)\n");
                        *m  = keep;
                        MON = m;
                        printf("@@E\n");
                        fflush(stdout);
                    }
                    if (nviol > 200)
                        break;
                }
            }
        }
        cr[0] = 0;
    } else if (!strcmp(mode, "inter")) {
        /* groups of cases interleaved call by call; digests must equal those of the cases run alone */
        for (uint64_t g = from; g < to && !late(until, &cut); g += stride) {
            cr[0]  = g + 1;
            co_rng = opt_seed * 77 + g * 0x9e3779b97f4a7c15ull;
            nco    = 2 + (int)(splitmix(&co_rng) % (group - 1));
            uint64_t alone[16];
            int      same = splitmix(&co_rng) % 2;
            int      base = (int)(splitmix(&co_rng) % ndrivers);
            for (int i = 0; i < nco; i++) {
                co[i].d  = drivers[same ? base : (int)(splitmix(&co_rng) % ndrivers)];
                co[i].cs = g * 100 + i;
                run_case(m, co[i].d, co[i].cs);
                events += m->events;
                m->events = 0;
                alone[i]  = m->digest;
            }
            for (int i = 0; i < nco; i++) {
                co[i].m = calloc(1, sizeof *m);
                ctx_begin(co[i].m, co[i].d, co[i].cs);
                co[i].m->yield = co_yield;
                co[i].done     = 0;
                getcontext(&co[i].uc);
                co[i].uc.uc_stack.ss_size = 1 << 20;
                co[i].uc.uc_stack.ss_sp   = malloc(1 << 20);
                co[i].uc.uc_link          = NULL;
                makecontext(&co[i].uc, (void (*)(void))co_entry, 1, i);
            }
            co_cur = 0;
            MON    = co[0].m;
            swapcontext(&co_main, &co[0].uc);
            for (int i = 0; i < nco; i++) {
                mon_ctx *c = co[i].m;
                MON        = c;
                ctx_end(c);
                evals++;
                set_add(m->nt, c->digest);
                if (c->digest != alone[i]) {
                    nviol++;
                    if (nviol <= 6)
                        printf("@@V X03\t%llu\tinterference:%s\tcase %llu of driver %s gives other results when %d objects are "
                               "used in turns than alone (%s)\n@@E\n",
                               (unsigned long long)g, co[i].d->id, (unsigned long long)co[i].cs, co[i].d->id, nco,
                               c->violated ? c->msg : "different observations");
                }
                events += c->events;
                free(co[i].uc.uc_stack.ss_sp);
                free(c);
            }
        }
        MON = m;
        printf("@@S switches %llu\n", (unsigned long long)co_switches);
        cr[0] = 0;
    } else if (!strcmp(mode, "threads")) {
        /* groups of threads, each running its own cases; digests must equal those of a single thread */
        for (uint64_t g = from; g < to && !late(until, &cut); g += stride) {
            cr[0]       = g + 1;
            uint64_t x  = opt_seed * 99 + g * 0x9e3779b97f4a7c15ull;
            int      nt = (int)group, n = 6;
            thr_t    t[16];
            pthread_t         th[16];
            pthread_barrier_t bar;
            pthread_barrier_init(&bar, NULL, nt);
            int same = splitmix(&x) % 2, base = (int)(splitmix(&x) % ndrivers);
            for (int i = 0; i < nt; i++) {
                t[i] = (thr_t){i, n, calloc(n, sizeof(void *)), calloc(n, 8), calloc(n, 8), calloc(n, 4), &bar};
                for (int k = 0; k < n; k++) {
                    t[i].ds[k] = drivers[same ? (base + k) % ndrivers : (int)(splitmix(&x) % ndrivers)];
                    t[i].cs[k] = g * 1000 + i * 10 + k;
                }
            }
            for (int i = 0; i < nt; i++)
                pthread_create(&th[i], NULL, thr_main, &t[i]);
            for (int i = 0; i < nt; i++)
                pthread_join(th[i], NULL);
            for (int i = 0; i < nt; i++) {
                for (int k = 0; k < n; k++) {
                    run_case(m, t[i].ds[k], t[i].cs[k]);
                    evals++;
                    set_add(m->nt, m->digest);
                    if (m->digest != t[i].digest[k]) {
                        nviol++;
                        if (nviol <= 6)
                            printf("@@V X03\t%llu\tthread-interference:%s\tcase %llu of driver %s gives other results with %d "
                                   "threads running than alone\n@@E\n",
                                   (unsigned long long)g, t[i].ds[k]->id, (unsigned long long)t[i].cs[k], t[i].ds[k]->id, nt);
                    }
                }
                free(t[i].ds), free(t[i].cs), free(t[i].digest), free(t[i].viol);
            }
            pthread_barrier_destroy(&bar);
        }
        cr[0] = 0;
    }
    uint32_t hit = 0;
    for (uint32_t i = 1; i <= edge_n; i++)
        hit += edge_hit[i];
    if (mon_report_hook)
        mon_report_hook();
    if (opt_services)
        printf("@@S documented_allocations %llu\n", (unsigned long long)n_allocs);
    if (cut)
        printf("@@S shards_cut_short 1\n");
    printf("@@S evals %llu\n@@S events %llu\n@@S calls %llu\n@@S edges %u\n@@S edges_total %u\n@@S violations %llu\n@@DONE\n",
           (unsigned long long)evals, (unsigned long long)(events + m->events), (unsigned long long)m->ops, hit, edge_n,
           (unsigned long long)nviol);
    fflush(stdout);
    if (setout) {
        char path[600];
        snprintf(path, sizeof path, "%s.nt", setout);
        set_dump(m->nt, path);
        snprintf(path, sizeof path, "%s.st", setout);
        set_dump(m->states, path);
        snprintf(path, sizeof path, "%s.ed", setout);
        FILE *f = fopen(path, "wb");
        if (f) {
            fwrite(edge_hit ? edge_hit + 1 : (uint8_t *)"", 1, edge_n, f);
            fclose(f);
        }
    }
    return 0;
}
