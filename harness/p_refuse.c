/* X09: a call that is refused or fails is as if it had never been made. Every module is driven as a pair of objects
   with the same history; the second one additionally gets calls that have to be refused (full, empty, out of range,
   not allowed in this state) or that fail because the storage, a handler or a callback says so. All results of the two
   must stay equal, the refused calls have to say that they were, and the caller's output stays as it was. */
#include <time.h>
#include "mon.h"
#include "gel_conf.h"
#include "inst_queue.h"
#include "inst_sm.h"
#include "inst_param.h"
#include "collections/circular_buffer.h"
#include "circular_event_log/circular_event_log.h"
#include "data_structures/watcher.h"
#include "debounce/debounce.h"
#include "debounce/pulsecounter.h"
#include "pagemanager/page_manager.h"
#include "scheduler/scheduler.h"
#include "timer/timer.h"
#include "wearleveling/wearleveling.h"
unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp); /* not in the header */
int           scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int           scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
int           scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int           scheduler_get_first_available_entry(scheduler_t *scheduler);
uint16_t      scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);

static int      who;     /* whose call is running: 0 the undisturbed object, 1 its twin */
static int      failing; /* the environment fails the call that is running */
static unsigned refusals, compared;
static uint64_t results[2]; /* what callbacks of the two were given */

#define BOTH(NAME, EXPR)                                                                                               \
    do {                                                                                                               \
        long long r_[2];                                                                                               \
        OP("%s", NAME);                                                                                                \
        for (who = 0; who < 2; who++)                                                                                  \
            r_[who] = (long long)(EXPR);                                                                               \
        OBS(r_[0]);                                                                                                    \
        compared++;                                                                                                    \
        CHECK(r_[0] == r_[1], "trace", "%s: %lld, but %lld for the twin that refused calls before", NAME, r_[0], r_[1]); \
    } while (0)
#define DO(NAME, EXPR)                                                                                                 \
    do {                                                                                                               \
        OP("%s", NAME);                                                                                                \
        for (who = 0; who < 2; who++)                                                                                  \
            EXPR;                                                                                                      \
    } while (0)
/* a call to the twin alone, that must answer so */
#define REFUSED(NAME, WANT, EXPR)                                                                                      \
    do {                                                                                                               \
        OP("%s (has to be refused)", NAME);                                                                            \
        who          = 1;                                                                                              \
        long long w_ = (long long)(EXPR);                                                                              \
        OBS(w_);                                                                                                       \
        refusals++;                                                                                                    \
        CHECK(w_ == (WANT), "accepted", "%s that has to be refused returned %lld, expected %lld", NAME, w_, (long long)(WANT)); \
    } while (0)
#define FAILS(NAME, EXPR)                                                                                              \
    do {                                                                                                               \
        OP("%s (has to fail)", NAME);                                                                                  \
        who          = 1;                                                                                              \
        failing      = 1;                                                                                              \
        long long w_ = (long long)(EXPR);                                                                              \
        failing      = 0;                                                                                              \
        OBS(w_);                                                                                                       \
        refusals++;                                                                                                    \
        CHECK(w_ == -7, "accepted", "%s returned %lld though its storage answered -7", NAME, w_);                      \
    } while (0)
static void untouched(const uint8_t *p, size_t n, const char *what) {
    for (size_t i = 0; i < n; i++)
        CHECK(p[i] == 0xA5, "output", "a refused %s wrote byte %zu of its output", what, i);
}
#define OUT 128
static uint8_t *marked(void) { return memset(mon_alloc(OUT), 0xA5, OUT); }

static void do_cbuf(void) {
    size_t          n = 1 + rn(chance(1, 5) ? 70 : 8), held = 0, N = 12;
    circular_buf_t *c[2];
    GEL_CBUF_TYPE  *store[2], in[12], *out[2];
    for (int i = 0; i < 2; i++) {
        c[i]     = mon_alloc(sizeof *c[i]);
        store[i] = mon_guard(n * sizeof *store[i]);
        out[i]   = mon_zalloc(N * sizeof *out[i]);
        circular_buf_init(c[i], store[i], n);
    }
    for (int k = 0; k < 60; k++) {
        size_t len = rn(N + 1);
        for (size_t i = 0; i < N; i++)
            mon_elem(&in[i], sizeof in[i], rnd());
        switch (rn(8)) {
            case 0: BOTH("circular_buf_putc", circular_buf_putc(c[who], in[0])); held += held < n - 1; break;
            case 1: BOTH("circular_buf_puts", circular_buf_puts(c[who], in, len)); held += len < n - 1 - held ? len : n - 1 - held; break;
            case 2: BOTH("circular_buf_getc", circular_buf_getc(c[who], out[who])); held -= held > 0; break;
            case 3: BOTH("circular_buf_gets", circular_buf_gets(c[who], out[who], (int)len)); held -= len < held ? len : held; break;
            case 4: BOTH("circular_buf_drop", circular_buf_drop(c[who], (int)len)); held -= len < held ? len : held; break;
            case 5: BOTH("circular_buf_peek", circular_buf_peek(c[who], out[who], (int)len)); break;
            case 6: BOTH("circular_buf_size", circular_buf_size(c[who]) * 4 + is_circular_buf_empty(c[who]) * 2 + is_circular_buf_full(c[who])); break;
            default: BOTH("circular_buf_capacity", circular_buf_capacity(c[who])); break;
        }
        CHECK(!memcmp(out[0], out[1], N * sizeof *out[0]), "trace", "the twin that refused calls before delivers other elements");
        GEL_CBUF_TYPE *e = mon_alloc(N * sizeof *e);
        memset(e, 0xA5, N * sizeof *e);
        for (int x = (int)rn(3); x > 0; x--) {
            if (held == n - 1) {
                if (chance(1, 2))
                    REFUSED("circular_buf_putc on a full buffer", -1, circular_buf_putc(c[who], in[1]));
                else
                    REFUSED("circular_buf_puts on a full buffer", 0, circular_buf_puts(c[who], in, len));
            }
            if (held == 0)
                switch (rn(4)) {
                    case 0: REFUSED("circular_buf_getc on an empty buffer", -1, circular_buf_getc(c[who], e)); break;
                    case 1: REFUSED("circular_buf_gets on an empty buffer", 0, circular_buf_gets(c[who], e, (int)len)); break;
                    case 2: REFUSED("circular_buf_peek on an empty buffer", 0, circular_buf_peek(c[who], e, (int)len)); break;
                    default: REFUSED("circular_buf_drop on an empty buffer", 0, circular_buf_drop(c[who], (int)len)); break;
                }
            switch (rn(8)) {
                case 0: REFUSED("circular_buf_init without a buffer", 1, circular_buf_init(c[who], NULL, n)); break;
                case 1: REFUSED("circular_buf_init without room", 1, circular_buf_init(c[who], store[1], 0)); break;
                case 2: REFUSED("circular_buf_puts of nothing", 0, circular_buf_puts(c[who], in, 0)); break;
                case 3: REFUSED("circular_buf_gets of nothing", 0, circular_buf_gets(c[who], e, 0)); break;
                case 4:
                    switch (rn(10)) {
                        case 0: REFUSED("circular_buf_putc without a buffer object", -1, circular_buf_putc(NULL, in[1])); break;
                        case 1: REFUSED("circular_buf_puts without a buffer object", -1, circular_buf_puts(NULL, in, 1 + rn(N))); break;
                        case 2: REFUSED("circular_buf_getc without a buffer object", -1, circular_buf_getc(NULL, e)); break;
                        case 3: REFUSED("circular_buf_gets without a buffer object", -1, circular_buf_gets(NULL, e, 1 + (int)rn(N))); break;
                        case 4: REFUSED("circular_buf_peek without a buffer object", -1, circular_buf_peek(NULL, e, 1 + (int)rn(N))); break;
                        case 5: REFUSED("circular_buf_drop without a buffer object", -1, circular_buf_drop(NULL, 1 + (int)rn(N))); break;
                        case 6: REFUSED("circular_buf_size without a buffer object", 0, circular_buf_size(NULL)); break;
                        case 7: REFUSED("circular_buf_capacity without a buffer object", 0, circular_buf_capacity(NULL)); break;
                        case 8: REFUSED("is_circular_buf_empty without a buffer object", 1, is_circular_buf_empty(NULL) != 0); break;
                        default: REFUSED("is_circular_buf_full without a buffer object", 0, is_circular_buf_full(NULL)); break;
                    }
                    circular_buf_reset(NULL);
                    break;
                default: break;
            }
        }
        untouched((uint8_t *)e, N * sizeof *e, "reading of a circular buffer");
    }
    mon_guard_check(store[1], "circular buffer");
}
static void coll(const coll_ops_t *o) {
    if (o->cap > 300 || o->esz > 100)
        return;
    void  *q[2], *e = mon_alloc(o->esz);
    char  *out[2];
    size_t held = 0;
    for (int i = 0; i < 2; i++)
        q[i] = mon_guard(o->osz), out[i] = mon_zalloc(o->esz), o->init(q[i]);
    int bias = rn(2), n = o->cap > 40 ? 800 : 60;
    for (int k = 0; k < n; k++) {
        if (rn(o->cap) == 0)
            bias = rn(3);
        mon_elem(e, o->esz, rnd());
        switch (rn(7)) {
            case 0: case 1: case 2:
                if (bias == 0 || (bias == 2 && chance(1, 2))) {
                    if (held < o->cap) {
                        BOTH("storing in a collection", o->put(q[who], e));
                        held++;
                    }
                } else if (held) {
                    BOTH("taking from a collection", o->get(q[who], out[who]));
                    held--;
                }
                break;
            case 3:
                if (held && chance(1, 3)) {
                    BOTH("dropping from a collection", o->drop(q[who]));
                    held--;
                }
                break;
            case 4: BOTH("empty/full", o->empty(q[who]) * 2 + o->full(q[who])); break;
            case 5:
                if (o->count)
                    BOTH("count", o->count(q[who]));
                break;
            default:
                if (o->peek && held)
                    BOTH("peek", o->peek(q[who], out[who]));
                break;
        }
        CHECK(!memcmp(out[0], out[1], o->esz), "trace", "the twin that refused calls before delivers another element");
        if (chance(1, 2))
            continue;
        uint8_t *x = marked();
        mon_elem(e, o->esz, rnd());
        if (held == o->cap)
            REFUSED("storing in a full collection", 0, o->put(q[who], e));
        if (held == 0)
            switch (rn(3)) {
                case 0: REFUSED("taking from an empty collection", 0, o->get(q[who], chance(1, 4) ? NULL : x)); break;
                case 1:
                    if (o->peek)
                        REFUSED("peeking at an empty stack", 0, o->peek(q[who], x));
                    break;
                default:
                    if (o->count)
                        REFUSED("dropping from an empty queue", 0, o->drop(q[who]));
                    else {
                        OP("removing the bottom of an empty stack");
                        o->drop(q[1]), refusals++;
                    }
                    break;
            }
        untouched(x, OUT, "reading of a collection");
    }
    mon_guard_check(q[1], "collection");
}
static void do_queue(void) { coll(&queue_ops[rn(queue_nops)]); }
static void do_stack(void) { coll(&stack_ops[rn(stack_nops)]); }

#define EVN 24
static uint8_t (*lgmem)[EVN][4];
static int lg_save(uint8_t *e, size_t pos) {
    if (failing)
        return -7;
    memcpy(lgmem[who][pos % EVN], e, 4);
    return 0;
}
static int lg_load(uint8_t *e, size_t n, size_t start) {
    if (failing)
        return -7;
    for (size_t i = 0; i < n; i++)
        memcpy(e + 4 * i, lgmem[who][(start + i) % EVN], 4);
    return (int)n;
}
static void do_log(void) {
    circular_event_log_t t = {.max_events = 1 + rn(9), .event_size = 4, .save_new_event = lg_save, .load_events = lg_load};
    circular_event_log_t *l[2];
    uint8_t              *out[2];
    size_t                total = 0;
    lgmem = mon_zalloc(2 * sizeof *lgmem);
    for (int i = 0; i < 2; i++)
        l[i] = mon_alloc(sizeof t), memcpy(l[i], &t, sizeof t), out[i] = mon_zalloc(4 * 32);
    for (int k = 0; k < 40; k++) {
        uint8_t e[4];
        mon_elem(e, 4, rnd());
        size_t n = rn(12), j = rn(chance(1, 3) ? 12 : 3);
        switch (rn(4)) {
            case 0: case 1: BOTH("circular_event_log_new_event", circular_event_log_new_event(l[who], e)); total += total < t.max_events; break;
            case 2: BOTH("circular_event_log_total_events", circular_event_log_total_events(*l[who])); break;
            default:
                BOTH("circular_event_log_load_last_events", circular_event_log_load_last_events(*l[who], out[who], n, j));
                CHECK(!memcmp(out[0], out[1], 128), "trace", "the log delivers other events after a failure");
                break;
        }
        switch (rn(4)) {
            case 0: FAILS("circular_event_log_new_event", circular_event_log_new_event(l[who], e)); break;
            case 1:
                if (j < total && n)
                    FAILS("circular_event_log_load_last_events", circular_event_log_load_last_events(*l[who], marked(), n, j));
                break;
            case 2: {
                uint8_t *x = marked();
                REFUSED("circular_event_log_load_last_events beyond all events", 0, circular_event_log_load_last_events(*l[who], x, n, total + 1 + (chance(1, 3) ? rnd() % 1000000 : rn(5))));
                untouched(x, OUT, "reading of a log");
            } break;
            default: break;
        }
    }
}

typedef struct { uint8_t data[16][24], marker[16]; } wlst_t;
static wlst_t *wls;
static int     wl_rd(size_t b, uint8_t *p, size_t n) { return failing == 1 ? -7 : (memcpy(p, wls[who].data[b & 15], n), 0); }
static int     wl_wr(size_t b, uint8_t m, uint8_t *p, size_t n) {
    if (failing)
        return -7;
    memcpy(wls[who].data[b & 15], p, n);
    wls[who].marker[b & 15] = m;
    return 0;
}
static int wl_mk(size_t b, uint8_t *m) { return failing ? -7 : (*m = wls[who].marker[b & 15], 0); }
static void do_wl(void) {
    size_t                 n = 1 + rn(15), len = 1 + rn(24);
    wear_leveled_memory_t *w[2];
    uint8_t               *v = mon_alloc(len), *x = mon_alloc(len), *out[2];
    wls                      = mon_zalloc(2 * sizeof *wls);
    memset(wls, 0xFF, 2 * sizeof *wls);
    for (int i = 0; i < 2; i++)
        w[i] = mon_alloc(sizeof *w[i]), out[i] = mon_zalloc(len);
    memset(v, 0, len);
    BOTH("wearleveling_init", wearleveling_init(w[who], wl_rd, wl_wr, wl_mk, n));
    for (int k = 0; k < 60; k++) {
        v[rn(len)] ^= (uint8_t)rn(3);
        switch (rn(6)) {
            case 0: case 1: case 2: BOTH("wearleveling_write", wearleveling_write(w[who], v, len)); break;
            case 3: BOTH("wearleveling_init again", wearleveling_init(w[who], wl_rd, wl_wr, wl_mk, n)); break;
            default:
                BOTH("wearleveling_read", wearleveling_read(w[who], out[who], len));
                CHECK(!memcmp(out[0], out[1], len), "trace", "the memory reads differently after a failure");
                break;
        }
        CHECK(!memcmp(wls[0].marker, wls[1].marker, 16), "trace", "other blocks are programmed after a failure");
        for (size_t i = 0; i < len; i++)
            x[i] = (uint8_t)(wls[1].data[0][i] ^ (rn(255) + 1)), x[i] = chance(1, 2) ? (uint8_t)rnd() : x[i];
        switch (rn(5)) {
            case 0: FAILS("wearleveling_write that cannot read", wearleveling_write(w[who], x, len)); break;
            case 1: FAILS("wearleveling_read", wearleveling_read(w[who], marked(), len)); break;
            case 2: {
                /* the block to be written fails; a value that is already there programs nothing and cannot fail */
                who = 1;
                if (wearleveling_read(w[1], out[1], len) == 0 && memcmp(out[1], x, len)) {
                    memcpy(out[1], out[0], len);
                    OP("wearleveling_write that fails");
                    failing = 2;
                    int r   = wearleveling_write(w[1], x, len);
                    failing = 0;
                    refusals++;
                    CHECK(r == -7, "accepted", "a write whose block fails with -7 returned %d", r);
                } else
                    memcpy(out[1], out[0], len);
            } break;
            default: break;
        }
    }
}

static void do_sched(void) {
    scheduler_t *s[2];
    size_t       n = GEL_SCHEDULER_MAX_ENTRIES;
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    n = 1 + rn(12);
    for (int i = 0; i < 2; i++)
        { s[i] = mon_alloc(sizeof *s[i]); ALLOCATES(scheduler_init(s[i], n)); }
#else
    for (int i = 0; i < 2; i++)
        s[i] = mon_alloc(sizeof *s[i]), scheduler_init(s[i]);
#endif
    struct tm tm;
    for (int k = 0; k < 40; k++) {
        scheduler_entry_t e;
        memset(&e, 0, sizeof e);
        memset(&tm, 0, sizeof tm);
        e.enabled = chance(3, 4), e.days = (uint8_t)(chance(1, 2) ? 0x7F : rn(128)), e.start_second = rn(86400), e.end_second = e.start_second + 1 + rn(86400 - e.start_second), e.value = (int)rn(6);
        tm.tm_wday = rn(7), tm.tm_hour = rn(24), tm.tm_min = rn(60), tm.tm_sec = rn(60);
        size_t i = rn(n), beyond = n + (chance(1, 3) ? 0 : chance(1, 2) ? rn(300) : (size_t)rnd() >> rn(63));
        int    v[2] = {0, 0};
        switch (rn(10)) {
            case 0: case 1: BOTH("scheduler_set_entry", scheduler_set_entry(s[who], i, e)); break;
            case 2: BOTH("scheduler_disable_schedule_entry", scheduler_disable_schedule_entry(s[who], i)); break;
            case 3: BOTH("scheduler_get_entry", scheduler_get_entry(s[who], i)->value); break;
            case 4: BOTH("scheduler_get_active_entry_number", scheduler_get_active_entry_number(s[who], &tm)); break;
            case 5: BOTH("scheduler_current_value", scheduler_current_value(s[who], &tm, &v[who]) * 10 + v[who]); break;
            case 6: BOTH("scheduler_get_first_available_entry", scheduler_get_first_available_entry(s[who])); break;
            case 7: BOTH("scheduler_get_active_entries_map", scheduler_get_active_entries_map(s[who], &tm)); break;
            case 8: BOTH("scheduler_are_there_overlapping_entries", scheduler_are_there_overlapping_entries(s[who], &e)); break;
            default: BOTH("scheduler_get_next_enabled_entry", scheduler_get_next_enabled_entry(s[who], i)); break;
        }
        if (beyond < n)
            beyond = n;
        switch (rn(8)) {
            case 0: REFUSED("scheduler_set_entry beyond the table", -1, scheduler_set_entry(s[who], beyond, e)); break;
            case 1: REFUSED("scheduler_disable_schedule_entry beyond the table", -1, scheduler_disable_schedule_entry(s[who], beyond)); break;
            case 2: REFUSED("scheduler_get_entry beyond the table", 0, scheduler_get_entry(s[who], beyond) != NULL); break;
            case 3: REFUSED("scheduler_get_entry_mut beyond the table", 0, scheduler_get_entry_mut(s[who], beyond) != NULL); break;
            case 4: REFUSED("scheduler_get_schedule_remaining_duration beyond the table", 0, scheduler_get_schedule_remaining_duration(s[who], beyond, &tm)); break;
            case 5:
                if (!scheduler_is_active(s[0], &tm)) {
                    int *x = (int *)(void *)marked();
                    REFUSED("scheduler_current_value while nothing is active", 0, scheduler_current_value(s[who], &tm, x));
                    untouched((uint8_t *)x, OUT, "query of the current value");
                }
                break;
            default: break;
        }
    }
}
static void do_inputs(void) {
    debounce_filter_t *f[2];
    pulse_filter_t    *p[2];
    unsigned           in = (unsigned)rnd();
    int                d = rn(4), type = rn(2);
    for (int i = 0; i < 2; i++) {
        f[i] = mon_alloc(sizeof *f[i]), p[i] = mon_alloc(sizeof *p[i]);
        debounce_filter_init(f[i]);
        pulse_filter_init(p[i], type ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE, in);
    }
    for (int k = 0; k < 60; k++) {
        int i = (int)rn(NUM_INPUTS), beyond = NUM_INPUTS + (int)(chance(1, 2) ? rn(40) : rn(1000000)), under = -1 - (int)rn(chance(1, 2) ? 3 : 1000000);
        if (chance(1, 3))
            in ^= 1u << rn(32) | 1u << rn(32);
        switch (rn(6)) {
            case 0: case 1: BOTH("debounce_filter", debounce_filter(f[who], in, d)); break;
            case 2: BOTH("debounce_value", debounce_value(f[who])); break;
            case 3: case 4: BOTH("pulse_filter", pulse_filter(p[who], in, d)); break;
            default: BOTH("pulse_count", (long long)pulse_count(p[who], i) * 2 + pulse_level(p[who], i)); break;
        }
        switch (rn(8)) {
            case 0: REFUSED("debounce_read beyond the inputs", -1, debounce_read(f[who], (size_t)beyond)); break;
            case 1: REFUSED("pulse_count beyond the inputs", -1, pulse_count(p[who], chance(1, 2) ? beyond : under)); break;
            case 2: REFUSED("pulse_level beyond the inputs", -1, pulse_level(p[who], chance(1, 2) ? beyond : under)); break;
            case 3: OP("pulse_clear beyond the inputs"); pulse_clear(p[1], chance(1, 2) ? beyond : under), refusals++; break;
            default: break;
        }
    }
}
static void tcb(gel_timer_t *t, void *u, void *a) { (void)t, (void)u, (void)a, results[who]++; }
static void do_time(void) {
    stopwatch_t  *s[2];
    gel_timer_t  *g[2];
    unsigned long t = (unsigned long)-100, period = 1 + rn(50);
    int           autor = rn(2), run = 0, trun = 1; /* 0 stopped, 1 counting, 2 paused */
    results[0] = results[1] = 0;
    for (int i = 0; i < 2; i++) {
        s[i] = mon_alloc(sizeof *s[i]), g[i] = mon_alloc(sizeof *g[i]);
        stopwatch_init(s[i]);
        gel_timer_init(g[i], period, t, tcb, NULL);
        gel_timer_set_autoreload(g[i], (uint8_t)autor);
    }
    for (int k = 0; k < 60; k++) {
        unsigned long x = rn(60), fired = results[0];
        t += rn(chance(1, 5) ? 40 : 6);
        switch (rn(14)) {
            case 0: if (run != 1) { BOTH("stopwatch_start", stopwatch_start(s[who], t)); run = 1; } break;
            case 1: if (run == 1) { BOTH("stopwatch_pause", stopwatch_pause(s[who], t)); run = 2; } break;
            case 2: if (run && chance(1, 2)) { BOTH("stopwatch_stop", stopwatch_stop(s[who])); run = 0; } break;
            case 3: if (run == 0) BOTH("stopwatch_set", stopwatch_set(s[who], x)); break;
            case 4: if (run == 0) BOTH("stopwatch_set_elapsed", stopwatch_set_elapsed(s[who], x)); break;
            case 5: if (chance(1, 3)) { DO("stopwatch_change", stopwatch_change(s[who], x, t)); run = 1; } break;
            case 6: BOTH("stopwatch_get_elapsed", stopwatch_get_elapsed(s[who], t)); break;
            case 7: BOTH("stopwatch_get_remaining", stopwatch_get_remaining(s[who], t)); break;
            case 8: BOTH("stopwatch_is_timer_reached", stopwatch_is_timer_reached(s[who], t) * 4 + (int)stopwatch_get_state(s[who])); break;
            case 9: case 10:
                BOTH("gel_timer_manage_callback", gel_timer_manage_callback(g[who], t, NULL));
                if (results[0] != fired)
                    trun = autor ? 1 : 0;
                break;
            case 11: if (trun == 1) { DO("gel_timer_pause", gel_timer_pause(g[who], t)); trun = 2; } break;
            case 12: if (trun != 1) { DO("gel_timer_resume", gel_timer_resume(g[who], t)); trun = 1; } break;
            default: if (trun) DO("gel_timer_reset", gel_timer_reset(g[who], t)); break;
        }
        CHECK(results[0] == results[1], "trace", "the timer of the twin that refused calls before fires %s", results[0] > results[1] ? "less often" : "more often");
        BOTH("gel_timer_get_remaining", gel_timer_get_remaining(g[who], t));
        for (int y = rn(3); y > 0; y--) {
            if (run == 1)
                REFUSED("stopwatch_start of a running stopwatch", -1, stopwatch_start(s[who], t));
            else
                REFUSED("stopwatch_pause of a stopwatch that does not run", -1, stopwatch_pause(s[who], t));
            if (run == 0 && chance(1, 2)) {
                /* stopping forgets a preset elapsed time as documented; only the answer is compared */
                if (stopwatch_get_elapsed(s[1], t) == 0)
                    REFUSED("stopwatch_stop of a stopped stopwatch", -1, stopwatch_stop(s[who]));
            } else if (run) {
                REFUSED("stopwatch_set of a stopwatch in use", -1, stopwatch_set(s[who], x + 1));
                REFUSED("stopwatch_set_elapsed of a stopwatch in use", -1, stopwatch_set_elapsed(s[who], x + 1));
            }
            if (trun != 1)
                { OP("gel_timer_pause without effect"); gel_timer_pause(g[1], t), refusals++; }
            else
                { OP("gel_timer_resume without effect"); gel_timer_resume(g[1], t), refusals++; }
            if (trun == 0 && chance(1, 2))
                { OP("gel_timer_reset of a stopped timer"); gel_timer_reset(g[1], t), refusals++; }
            if (trun == 0 && chance(1, 2))
                { OP("gel_timer_change_period of a stopped timer"); gel_timer_change_period(g[1], x, t), refusals++; }
        }
    }
}
#define RH(n) static int rh##n(sm_model_t *m, int e) { return (void)m, (void)e, failing ? -1 - (int)(results[1] % 3) : (int)((results[who] + n) % 4); }
RH(0) RH(1) RH(2) RH(3)
static void do_sm(void) {
    const sm_ops_t *o = &sm_ops[0];
    sm_fn_t         all[4] = {(sm_fn_t)rh0, (sm_fn_t)rh1, (sm_fn_t)rh2, (sm_fn_t)rh3};
    sm_obj_t       *m[2];
    int             start = rn(4);
    for (int i = 0; i < 2; i++)
        m[i] = mon_alloc(sizeof *m[i]), o->setup(m[i], all, (unsigned)start);
    for (int k = 0; k < 20; k++) {
        sm_ev_t ev;
        memset(&ev, 0, sizeof ev);
        ev.payload[0] = rn(100);
        results[0] = results[1] = rn(100);
        BOTH("send_event", o->send(m[who], NULL, &ev));
        BOTH("the state", o->state(m[who]));
        if (chance(1, 2)) {
            failing = 1;
            REFUSED("send_event declined by the handler", 0, o->send(m[who], NULL, &ev));
            failing = 0;
        }
    }
}
static void do_param(void) {
    size_t              n = 1 + rn(6);
    parameter_handle_t *t[2];
    uint64_t           *v[2];
    for (int w = 0; w < 2; w++)
        t[w] = mon_zalloc(n * sizeof *t[w]), v[w] = mon_zalloc(n * sizeof *v[w]);
    for (size_t i = 0; i < n; i++) {
        int    ty = (int)rn(NTYPES);
        decl_t d;
        memset(&d, 0, sizeof d);
        if (ty == T_F)
            d.min.f = -5, d.max.f = 50, d.def.f = 2, d.step.f = 1;
        else if (ty == T_D)
            d.min.d = -5, d.max.d = 50, d.def.d = 2, d.step.d = 1;
        else
            d.min.i = 1, d.max.i = 100, d.def.i = 7, d.step.i = 1 + rn(9);
        d.lvl = rn(4);
        for (int w = 0; w < 2; w++)
            t[w][i] = par_declare(ty, &v[w][i], &d), memcpy(&v[w][i], &d.def, 8);
    }
    for (int k = 0; k < 24; k++) {
        size_t   i = rn(n), j = rn(n);
        unsigned al = rn(4);
        int      by = (int)rr(-20, 20);
        switch (rn(6)) {
            case 0: case 1: BOTH("parameter_operator", parameter_operator(&t[who][i], by)); break;
            case 2: BOTH("parameter_to_long", parameter_to_long(&t[who][i])); break;
            case 3: BOTH("parameter_get_count", parameter_get_count(t[who], n, al)); break;
            case 4: BOTH("parameter_copy_value", t[0][i].type == t[0][j].type ? parameter_copy_value(&t[who][i], &t[who][j]) : 0); break;
            default: BOTH("parameter_check_ranges", parameter_check_ranges(t[who], n)); break;
        }
        CHECK(!memcmp(v[0], v[1], n * 8), "trace", "the twin that refused calls before has other values");
        if (chance(1, 3)) {
            size_t c = parameter_get_count(t[1], n, al), beyond = c + rn(n - c);
            if (c < n)
                REFUSED("parameter_get_handle beyond the visible ones", 0, parameter_get_handle(t[who], n, beyond, al) != NULL);
        }
        if (t[1][i].type != t[1][j].type) {
            REFUSED("parameter_copy_value between types", 1, parameter_copy_value(&t[who][i], &t[who][j]) != 0);
            CHECK(!memcmp(v[0], v[1], n * 8), "trace", "a refused copy changed a value");
        }
        if (chance(1, 3)) {
            uint8_t           *b = marked();
            parameter_handle_t clone, before;
            memset(&clone, 0x5A, sizeof clone);
            before = clone;
            switch (rn(10)) {
                case 0: REFUSED("parameter_operator without a parameter", -1, parameter_operator(NULL, by)); break;
                case 1: REFUSED("parameter_to_long without a parameter", 0, parameter_to_long(NULL)); break;
                case 2: REFUSED("parameter_to_index without a parameter", 0, parameter_to_index(NULL)); break;
                case 3: REFUSED("parameter_to_bool without a parameter", 0, parameter_to_bool(NULL)); break;
                case 4: REFUSED("parameter_get_total_values without a parameter", 0, parameter_get_total_values(NULL)); break;
                case 5: REFUSED("parameter_copy_value to no parameter", 1, parameter_copy_value(NULL, &t[1][j]) != 0); break;
                case 6: REFUSED("parameter_copy_value from no parameter", 1, parameter_copy_value(&t[1][i], NULL) != 0); break;
                case 7: REFUSED("parameter_clone from no parameter", 0, (parameter_clone(&clone, NULL, b), 0)); break;
                case 8: REFUSED("parameter_clone to no parameter", 0, (parameter_clone(NULL, &t[1][i], b), 0)); break;
                default: REFUSED("parameter_clone without memory", 0, (parameter_clone(&clone, &t[1][i], NULL), 0)); break;
            }
            untouched(b, OUT, "clone");
            CHECK(!memcmp(&clone, &before, sizeof clone), "output", "a refused clone changed its destination");
            CHECK(!memcmp(v[0], v[1], n * 8), "trace", "a refused call changed a value");
        }
    }
}
static pman_page_data_t pg_create(pman_model_t m, void *e) {
    (void)m;
    results[who] = mon_mix(results[who], 1 + (uintptr_t)e);
    return (pman_page_data_t)e;
}
static void pg_open(pman_model_t m, pman_page_data_t d) { (void)m, (void)d, results[who] = mon_mix(results[who], 2); }
static void pg_close(pman_page_data_t d) { (void)d, results[who] = mon_mix(results[who], 3); }
static void pg_destroy(pman_page_data_t d, void *e) { (void)d, results[who] = mon_mix(results[who], 4 + (uintptr_t)e); }
static void do_pman(void) {
    page_manager_t *p[2];
    pman_model_t    model;
    pman_page_t     a;
    int             deep = 0;
    memset(&model, 0, sizeof model);
    memset(&a, 0, sizeof a);
    a.create = pg_create, a.open = pg_open, a.close = pg_close, a.destroy = pg_destroy;
    results[0] = results[1] = 0;
    a.id = 1;
    for (who = 0; who < 2; who++)
        p[who] = mon_alloc(sizeof *p[who]), pman_init(p[who]), (void)pman_change_page(p[who], model, a);
    for (int k = 0; k < 30; k++) {
        uint8_t found[2] = {2, 2};
        a.id = 1 + (int)rn(4), a.extra = (void *)(uintptr_t)k;
        switch (rn(5)) {
            case 0:
                if (deep + 1 < PMAN_NAVIGATION_DEPTH) {
                    deep++;
                    DO("pman_change_page", (void)pman_change_page(p[who], model, a));
                }
                break;
            case 1: DO("pman_swap_page", (void)pman_swap_page(p[who], model, a)); break;
            case 2:
                if (deep) {
                    deep--;
                    DO("pman_back", (void)pman_back(p[who], model));
                }
                break;
            case 3:
                if (chance(1, 3)) {
                    DO("pman_reset_to_page", (void)pman_reset_to_page(p[who], model, a.id, &found[who]));
                    CHECK(found[0] == found[1], "trace", "the twin that refused calls before finds another page");
                    if (!found[0])
                        DO("pman_change_page", (void)pman_change_page(p[who], model, a));
                    DO("pman_rebase_page", (void)pman_rebase_page(p[who], model, a));
                    deep = 0;
                }
                break;
            default: DO("pman_page_update", (void)pman_page_update(p[who], model)); break;
        }
        compared++;
        CHECK(results[0] == results[1], "trace", "the pages of the twin that refused calls before are called differently");
        while (deep == 0 && chance(1, 2)) {
            OP("pman_back at the bottom"); who = 1, (void)pman_back(p[1], model), refusals++;
            CHECK(results[0] == results[1], "trace", "going back from the bottom called a page");
        }
    }
}
static void x09(void) {
    static void (*const part[])(void) = {do_cbuf, do_queue, do_queue, do_stack, do_stack, do_log, do_wl, do_sched, do_inputs, do_time, do_sm, do_param, do_pman};
    refusals = compared = failing = 0;
    unsigned busy = 0;
    for (int k = 0; k < 2; k++) {
        unsigned r = refusals;
        part[rn(sizeof part / sizeof *part)]();
        busy += refusals > r;
        mon_state(mon_mix(refusals, compared));
    }
    if (busy == 2 && compared > 20)
        mon_nontrivial();
}
DRIVER("X09", x09,
       "pairs of objects of every module with the same random history, the second of which additionally gets calls that must be refused or fail; "
       "non-trivial: refused calls in both parts and over 20 compared results")
