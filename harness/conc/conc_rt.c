#define _GNU_SOURCE
#include "conc_rt.h"
#include "mon.h"
#include <ucontext.h>
#include <stdio.h>
#include <string.h>

#define STACK (256 * 1024)
#define NSH   4096
#define HIST  1024
static char       stacks[2][STACK] __attribute__((aligned(64)));
static ucontext_t uc[2], ucmain;
static int        cur, done[2], running, incall[2];
static sched_t    S;
static void (*body)(int);
static region_t   reg[4];
static int        nreg;
static uint64_t   naccess, nswitch, noverlap, sig, callsteps[2], callmax[2];
static int        nstale, prio, turns_left, nextpre;
static int        pre_back; /* accesses the preempting thread still has */
static char       race[400];

/* ---- detector state ---- */
static uint32_t vc[2][2];
typedef struct {
    uint32_t wp[2], wa[2], rp[2], ra[2];
} shadow_t;
static shadow_t sh[4][NSH];
typedef struct {
    uint64_t val;
    int      tid;
    uint32_t clk;
    uint32_t rel[2];
} store_t;
typedef struct {
    store_t *h; /* stores in modification order */
    int      n, seen[2], size, plain_by;
} loc_t;
static loc_t    loc[4][NSH];
static store_t  pool[65536];
static int      poolused;
static uint32_t facq[2][2], frel[2][2];

static uint64_t rng(void) {
    uint64_t z = (S.rng += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void switch_to_other(void) {
    int me = cur, other = !cur;
    if (done[other])
        return;
    if (incall[me])
        nswitch++;
    sig = mon_mix(sig, naccess * 2 + (uint64_t)other);
    cur = other;
    swapcontext(&uc[me], &uc[other]);
}
static void point(void) {
    naccess++;
    if (incall[0] && incall[1])
        noverlap++;
    if (++callsteps[cur] > callmax[cur] && S.quiet) {
        if (race[0])
            mon_fail("race", "%s", race);
        mon_abandon();
    }
    if (callsteps[cur] > callmax[cur])
        mon_fail("unbounded", "a call of the %s does not finish within %llu memory accesses", cur ? "reader" : "writer",
                 (unsigned long long)callmax[cur]);
    switch (S.kind) {
        case SCHED_UNIFORM:
            if (rng() % S.rate == 0)
                switch_to_other();
            break;
        case SCHED_BURSTS:
            if (--turns_left <= 0) {
                turns_left = rng() % 3 == 0 ? 1 + rng() % 4 : 1 + rng() % (S.rate * 8);
                switch_to_other();
            }
            break;
        case SCHED_PREEMPT:
            if (pre_back > 0 && --pre_back == 0)
                switch_to_other();
            else if (nextpre < S.npre && naccess >= S.pre[nextpre]) {
                pre_back = (int)S.len[nextpre++];
                switch_to_other();
            }
            break;
        default: /* priorities with change points */
            if (nextpre < S.npre && naccess >= S.pre[nextpre]) {
                nextpre++;
                prio = !prio;
            }
            if (cur != prio && !done[prio])
                switch_to_other();
            break;
    }
}
static int where(const void *p, size_t n, int *off) {
    for (int i = 0; i < nreg; i++) {
        uintptr_t a = (uintptr_t)p, b = (uintptr_t)reg[i].p;
        if (a >= b && a + n <= b + reg[i].n && a - b < NSH - 16) {
            *off = (int)(a - b);
            return i;
        }
    }
    return -1;
}
static void report(int r, int off, int write, int atomic, int ow, int oa) {
    if (!race[0])
        snprintf(race, sizeof race, "%s %s of byte %d of the %s by the %s is not ordered with %s %s by the %s", atomic ? "an atomic" : "a plain",
                 write ? "write" : "read", off, reg[r].name, cur ? "reader" : "writer", oa ? "an atomic" : "a plain", ow ? "write" : "read",
                 cur ? "writer" : "reader");
}
static void judge(const void *p, size_t n, int write, int atomic) {
    int off, r = where(p, n, &off), t = cur, o = !cur;
    if (r < 0 || !running)
        return;
    uint32_t me = vc[t][t], seen = vc[t][o];
    for (size_t i = 0; i < n; i++) {
        shadow_t *s = &sh[r][off + i];
        if (s->wp[o] > seen)
            report(r, off + (int)i, write, atomic, 1, 0);
        if (!atomic && s->wa[o] > seen)
            report(r, off + (int)i, write, atomic, 1, 1);
        if (write && s->rp[o] > seen)
            report(r, off + (int)i, write, atomic, 0, 0);
        if (write && !atomic && s->ra[o] > seen)
            report(r, off + (int)i, write, atomic, 0, 1);
        if (write) {
            (atomic ? s->wa : s->wp)[t] = me;
            if (!atomic)
                loc[r][off + i].plain_by = t + 1;
        } else
            (atomic ? s->ra : s->rp)[t] = me;
    }
}
static void plain(void *p, size_t n, int write) {
    if (!running)
        return;
    point();
    judge(p, n, write, 0);
}
/* ---- atomics ---- */
static uint64_t raw_load(const volatile void *p, int n) {
    switch (n) {
        case 1: return *(const volatile uint8_t *)p;
        case 2: return *(const volatile uint16_t *)p;
        case 4: return *(const volatile uint32_t *)p;
        default: return *(const volatile uint64_t *)p;
    }
}
static void raw_store(volatile void *p, int n, uint64_t v) {
    switch (n) {
        case 1: *(volatile uint8_t *)p = (uint8_t)v; break;
        case 2: *(volatile uint16_t *)p = (uint16_t)v; break;
        case 4: *(volatile uint32_t *)p = (uint32_t)v; break;
        default: *(volatile uint64_t *)p = v; break;
    }
}
static loc_t *loc_of(const volatile void *p, int n) {
    int off, r = where((const void *)p, n, &off);
    if (r < 0 || !running)
        return NULL;
    loc_t *l = &loc[r][off];
    if (!l->h || l->size != n) {
        if (poolused + HIST > (int)(sizeof pool / sizeof pool[0])) {
            fprintf(stderr, "too many atomic locations for the detector\n");
            exit(3);
        }
        l->h = &pool[poolused];
        poolused += HIST;
        l->size    = n;
        l->n       = 1;
        l->h[0]    = (store_t){raw_load(p, n), -1, 0, {0, 0}};
        l->seen[0] = l->seen[1] = 0;
    }
    return l;
}
static int acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void join(uint32_t *d, const uint32_t *s) {
    for (int i = 0; i < 2; i++)
        if (d[i] < s[i])
            d[i] = s[i];
}
static uint64_t a_load(const volatile void *p, int n, int mo, int newest) {
    point();
    judge((const void *)p, n, 0, 1);
    loc_t *l = loc_of(p, n);
    if (!l)
        return raw_load(p, n);
    int t = cur, k = l->n - 1, lo = l->seen[t];
    /* a plain store to the location since then counts as the newest value */
    if (l->h[k].val != raw_load(p, n) && l->n < HIST) {
        int w        = l->plain_by ? l->plain_by - 1 : !t;
        l->h[l->n++] = (store_t){raw_load(p, n), w, vc[w][w], {0, 0}};
        k            = l->n - 1;
    }
    for (int i = k; i > lo; i--)
        if (l->h[i].tid < 0 || l->h[i].tid == t || l->h[i].clk <= vc[t][l->h[i].tid]) {
            lo = i;
            break;
        }
    if (S.stale && !newest && mo != __ATOMIC_SEQ_CST && k > lo && rng() % 3 == 0) {
        k = lo + (int)(rng() % (uint64_t)(k - lo + 1));
        if (k != l->n - 1)
            nstale++;
    }
    l->seen[t] = k;
    join(acq(mo) ? vc[t] : facq[t], l->h[k].rel);
    return l->h[k].val;
}
static void a_store(volatile void *p, int n, uint64_t v, int mo, int rmw) {
    if (!rmw)
        point();
    judge((const void *)p, n, 1, 1);
    loc_t *l = loc_of(p, n);
    raw_store(p, n, v);
    if (!l)
        return;
    int     t = cur;
    store_t s = {n == 8 ? v : v & ((1ull << (8 * n)) - 1), t, vc[t][t], {0, 0}};
    join(s.rel, rel(mo) ? vc[t] : frel[t]);
    if (rmw)
        join(s.rel, l->h[l->n - 1].rel);
    if (l->n == HIST) {
        memmove(l->h, l->h + HIST / 2, HIST / 2 * sizeof *l->h);
        l->n -= HIST / 2;
        for (int i = 0; i < 2; i++)
            l->seen[i] = l->seen[i] > HIST / 2 ? l->seen[i] - HIST / 2 : 0;
    }
    l->h[l->n++] = s;
    l->seen[t]   = l->n - 1;
    vc[t][t]++;
}
static void fence(int mo) {
    if (!running)
        return;
    point();
    if (acq(mo))
        join(vc[cur], facq[cur]);
    if (rel(mo)) {
        join(frel[cur], vc[cur]);
        vc[cur][cur]++;
    }
}
/* ---- the callbacks of the instrumentation ---- */
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { plain(p, n, 0); }                                                                   \
    void __tsan_write##n(void *p) { plain(p, n, 1); }                                                                  \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, 0); }                                                         \
    void __tsan_unaligned_write##n(void *p) { plain(p, n, 1); }                                                        \
    void __tsan_volatile_read##n(void *p) { plain(p, n, 0); }                                                          \
    void __tsan_volatile_write##n(void *p) { plain(p, n, 1); }                                                         \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, 0); }                                                \
    void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, 1); }                                               \
    void __tsan_read_write##n(void *p) {                                                                               \
        plain(p, n, 0);                                                                                                \
        plain(p, n, 1);                                                                                                \
    }                                                                                                                  \
    void __tsan_unaligned_read_write##n(void *p) {                                                                     \
        plain(p, n, 0);                                                                                                \
        plain(p, n, 1);                                                                                                \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { plain(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { plain(p, n, 1); }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_vptr_update(void **p, void *v) { (void)p, (void)v; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
static void shared(const void *p, size_t n, int write) {
    int off;
    if (n && where(p, n, &off) >= 0)
        judge(p, n, write, 0);
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (!running)
        return memcpy(d, s, n);
    point();
    for (size_t i = 0; i < n;) {
        size_t c = n - i < 4 ? n - i : 4;
        if (i)
            point();
        shared((const char *)s + i, c, 0);
        shared((char *)d + i, c, 1);
        memcpy((char *)d + i, (const char *)s + i, c);
        i += c;
    }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if (running) {
        point();
        shared(s, n, 0);
        shared(d, n, 1);
    }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if (running) {
        point();
        shared(d, n, 1);
    }
    return memset(d, c, n);
}
#define AT(b, T)                                                                                                       \
    T    __tsan_atomic##b##_load(const volatile T *p, int mo) {                                                        \
        return running ? (T)a_load(p, sizeof(T), mo, 0) : *p;                                                          \
    }                                                                                                                  \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) {                                                        \
        if (running)                                                                                                   \
            a_store(p, sizeof(T), (uint64_t)v, mo, 0);                                                                 \
        else                                                                                                           \
            *p = v;                                                                                                    \
    }                                                                                                                  \
    static T rmw##b(volatile T *p, T v, int mo, int op) {                                                              \
        T o = running ? (T)a_load(p, sizeof(T), mo, 1) : *p, x = v;                                                    \
        switch (op) {                                                                                                  \
            case 0: break;                                                                                             \
            case 1: x = (T)(o + v); break;                                                                             \
            case 2: x = (T)(o - v); break;                                                                             \
            case 3: x = (T)(o & v); break;                                                                             \
            case 4: x = (T)(o | v); break;                                                                             \
            case 5: x = (T)(o ^ v); break;                                                                             \
            default: x = (T) ~(o & v); break;                                                                          \
        }                                                                                                              \
        if (running)                                                                                                   \
            a_store(p, sizeof(T), (uint64_t)x, mo, 1);                                                                 \
        else                                                                                                           \
            *p = x;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 0); }                          \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 1); }                         \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 2); }                         \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 3); }                         \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 4); }                          \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 5); }                         \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) { return rmw##b(p, v, mo, 6); }                        \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) {                        \
        (void)fmo;                                                                                                     \
        T o = running ? (T)a_load(p, sizeof(T), mo, 1) : *p;                                                           \
        if (o == *e) {                                                                                                 \
            if (running)                                                                                               \
                a_store(p, sizeof(T), (uint64_t)v, mo, 1);                                                             \
            else                                                                                                       \
                *p = v;                                                                                                \
            return 1;                                                                                                  \
        }                                                                                                              \
        *e = o;                                                                                                        \
        return 0;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) {                          \
        return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, fmo);                                           \
    }                                                                                                                  \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {                              \
        __tsan_atomic##b##_compare_exchange_strong(p, &e, v, mo, fmo);                                                 \
        return e;                                                                                                      \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- running ---- */
static void entry(int i) {
    body(i);
    done[i]   = 1;
    incall[i] = 0;
    cur       = !i;
    if (!done[!i])
        setcontext(&uc[!i]);
    setcontext(&ucmain);
}
void conc_run(const sched_t *s, void (*fn)(int), const region_t *r, int n) {
    S       = *s;
    body    = fn;
    nreg    = n;
    naccess = nswitch = noverlap = sig = 0;
    nstale = nextpre = pre_back = turns_left = 0;
    race[0] = 0;
    memcpy(reg, r, n * sizeof *r);
    for (int i = 0; i < n; i++) {
        size_t k = r[i].n + 16 < NSH ? r[i].n + 16 : NSH;
        memset(sh[i], 0, k * sizeof sh[i][0]);
        memset(loc[i], 0, k * sizeof loc[i][0]);
    }
    poolused = 0;
    memset(facq, 0, sizeof facq);
    memset(frel, 0, sizeof frel);
    vc[0][0] = vc[1][1] = 1;
    vc[0][1] = vc[1][0] = 0;
    for (int i = 0; i < 2; i++) {
        done[i] = incall[i] = 0;
        callsteps[i]        = 0;
        callmax[i]          = UINT64_MAX;
        getcontext(&uc[i]);
        uc[i].uc_stack.ss_sp   = stacks[i];
        uc[i].uc_stack.ss_size = STACK;
        uc[i].uc_link          = NULL;
        makecontext(&uc[i], (void (*)(void))entry, 1, i);
    }
    cur = prio = (int)(rng() & 1);
    running    = 1;
    swapcontext(&ucmain, &uc[cur]);
    running = 0;
}
void conc_call(uint64_t budget) {
    incall[cur]    = 1;
    callsteps[cur] = 0;
    callmax[cur]   = budget;
}
void conc_return(void) {
    incall[cur]  = 0;
    callmax[cur] = UINT64_MAX;
}
void     conc_stop(void) { running = 0; }
uint64_t conc_accesses(void) { return naccess; }
uint64_t conc_switches(void) { return nswitch; }
uint64_t conc_overlaps(void) { return noverlap; }
uint64_t conc_signature(void) { return sig; }
int      conc_stale_reads(void) { return nstale; }
int      conc_self(void) { return cur; }
const char *conc_race(void) { return race[0] ? race : NULL; }
