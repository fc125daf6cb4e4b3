/* X08: what is only asked or handed over is only read. Everything a call must not write to lies in an arena that is
   write-protected while the call runs, so that a write is noticed even if it stores the same value or is undone. */
#define _GNU_SOURCE
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include "mon.h"
#include "gel_conf.h"
#include "inst_queue.h"
#include "inst_list.h"
#include "inst_ser.h"
#include "inst_sm.h"
#include "inst_su.h"
#include "inst_param.h"
#include "collections/circular_buffer.h"
#include "circular_event_log/circular_event_log.h"
#include "crc/crc16-ccitt.h"
#include "crc/crc32.h"
#include "data_structures/watcher.h"
#include "debounce/debounce.h"
#include "debounce/pulsecounter.h"
#include "keypad/keypad.h"
#include "pagemanager/page_manager.h"
#include "pid/pid.h"
#include "scheduler/scheduler.h"
#include "timer/timer.h"
#include "wearleveling/wearleveling.h"
unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp); /* not in the header */
int           scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int           scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
int           scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int           scheduler_get_first_available_entry(scheduler_t *scheduler);
uint16_t      scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);
unsigned long scheduler_get_current_remaining_duration(scheduler_t *scheduler, struct tm *tm_info);
size_t        scheduler_get_max_schedule_entries(scheduler_t *scheduler);

#define ARENA (1u << 21)
static char       *arena;
static size_t      used, locked;
static const char *call;
static unsigned    asked;

static void unlock(void) {
    if (locked)
        mprotect(arena, locked, PROT_READ | PROT_WRITE);
    locked = 0;
}
static void fault(int sig, siginfo_t *i, void *c) {
    (void)c;
    char *a = i->si_addr;
    if (MON && locked && a >= arena && a < arena + locked) {
        unlock();
        mon_fail("written", "%s wrote to what it may only read (byte %zu of the arena)", call, (size_t)(a - arena));
    }
    signal(sig, SIG_DFL);
}
static void fresh(void) {
    if (!arena) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = fault;
        sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
        arena           = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (arena == MAP_FAILED)
            abort();
        sigaction(SIGSEGV, &sa, NULL);
    }
    unlock();
    used  = 0;
    asked = 0;
}
/* memory of the arena, with any content, and with any alignment an object of that size can have */
static void *ro(size_t n) {
    size_t at = (used + 15) & ~(size_t)15;
    if (at + n + 16 > ARENA)
        abort();
    used = at + n;
    for (size_t i = 0; i < n && i < 65536; i++)
        arena[at + i] = (char)(MON->fill ? MON->fs >> i % 8 * 8 : 0);
    return arena + at;
}
/* bytes: any alignment */
static uint8_t *rob(size_t n) { return (uint8_t *)ro(n + 8) + rn(8); }
/* calls with the arena protected */
#define RO(NAME, ...)                                                                                                  \
    do {                                                                                                               \
        OP("%s", NAME);                                                                                                \
        call   = NAME;                                                                                                 \
        locked = (used + 4095) & ~(size_t)4095;                                                                        \
        mprotect(arena, locked, PROT_READ);                                                                            \
        __VA_ARGS__;                                                                                                   \
        unlock();                                                                                                      \
        MON->events++;                                                                                                 \
        asked++;                                                                                                       \
    } while (0)
/* a question: asked twice, answered twice the same */
#define ASK(TYPE, NAME, EXPR)                                                                                          \
    do {                                                                                                               \
        TYPE one_, two_;                                                                                               \
        RO(NAME, one_ = (EXPR));                                                                                       \
        OBS((long long)one_);                                                                                          \
        if (chance(1, 3)) {                                                                                            \
            RO(NAME, two_ = (EXPR));                                                                                   \
            CHECK(!memcmp(&one_, &two_, sizeof one_), "answer", "%s asked twice gave two answers", NAME);              \
        }                                                                                                              \
    } while (0)

static void bytes(void *p, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((uint8_t *)p)[i] = (uint8_t)rnd();
}
static unsigned long now_; /* a clock that wraps */
static unsigned long later(void) { return now_ += rn(chance(1, 4) ? 300 : 20); }

static void do_cbuf(void) {
    size_t          n = 1 + rn(chance(1, 4) ? 300 : 20);
    circular_buf_t *b = ro(sizeof *b);
    GEL_CBUF_TYPE  *store = ro(n * sizeof *store), *in = ro(64 * sizeof *in), *out = mon_alloc(64 * sizeof *out);
    bytes(in, 64 * sizeof *in);
    circular_buf_init(b, store, n);
    for (int k = 0; k < 40; k++) {
        int len = (int)rn(40);
        switch (rn(12)) {
            case 0: circular_buf_puts(b, in, len); break;
            case 1: circular_buf_putc(b, in[rn(64)]); break;
            case 2: circular_buf_gets(b, chance(1, 2) ? out : NULL, len); break;
            case 3: circular_buf_drop(b, len); break;
            case 4: circular_buf_getc(b, out); break;
            case 5: chance(1, 8) ? circular_buf_reset(b) : (void)0; break;
            case 6: ASK(int, "circular_buf_peek", circular_buf_peek(b, out, len)); break;
            case 7: ASK(int, "is_circular_buf_empty", is_circular_buf_empty(b)); break;
            case 8: ASK(int, "is_circular_buf_full", is_circular_buf_full(b)); break;
            case 9: ASK(size_t, "circular_buf_capacity", circular_buf_capacity(b)); break;
            default: ASK(size_t, "circular_buf_size", circular_buf_size(b)); break;
        }
    }
    /* the elements handed over */
    used      = 0;
    in        = ro(64 * sizeof *in);
    bytes(in, 64 * sizeof *in);
    b         = mon_alloc(sizeof *b);
    store     = mon_alloc(n * sizeof *store);
    circular_buf_init(b, store, n);
    for (int k = 0; k < 8; k++) {
        int len = (int)rn(64), got = 0;
        RO("circular_buf_puts", got = circular_buf_puts(b, in, len));
        OBS(got);
        circular_buf_drop(b, (int)rn(64));
    }
}
static void coll(const coll_ops_t *o, int n) {
    if (o->cap > 40 || o->esz > 100)
        return;
    void *q = ro(o->osz), *out = mon_alloc(o->esz), *e = mon_alloc(o->esz);
    o->init(q);
    uint64_t hs = 0;
    int      bias = rn(3);
    for (int k = 0; k < n; k++) {
        void *to = chance(1, 4) ? NULL : out;
        if (rn(10) == 0)
            bias = rn(3);
        switch (rn(10)) {
            case 0: case 1:
                if (bias == 2)
                    break;
                mon_elem(e, o->esz, hs++), o->put(q, e);
                break;
            case 2: case 3:
                if (bias != 1)
                    o->get(q, chance(1, 4) ? NULL : out);
                break;
            case 4: chance(1, 3) ? (void)o->drop(q) : (void)0; break;
            case 5: ASK(int, "is_empty of a collection", o->empty(q)); break;
            case 6: ASK(int, "is_full of a collection", o->full(q)); break;
            case 7:
                if (o->count)
                    ASK(size_t, "count of a queue", o->count(q));
                break;
            default:
                if (o->peek)
                    ASK(int, "peek of a stack", o->peek(q, to));
                break;
        }
    }
    used = 0;
    e    = ro(o->esz);
    q    = mon_alloc(o->osz);
    o->init(q);
    for (int k = 0; k < 6; k++) {
        mon_elem(e, o->esz, k);
        RO("storing in a collection", o->put(q, e));
        if (chance(1, 3))
            o->get(q, out);
    }
}
static void do_queue(void) { coll(&queue_ops[rn(queue_nops)], 40); }
static void do_stack(void) { coll(&stack_ops[rn(stack_nops)], 40); }
static void do_list(void) {
    int             ni = 1 + rn(12);
    const lw_ops_t *o  = &lw[rn(2)][rn(2)];
    item_t         *it[12], *out[16];
    int             in[12] = {0};
    void           *h      = ro(lw_head_size());
    for (int i = 0; i < ni; i++)
        it[i] = ro(o->size), o->set_id(it[i], i);
    lw_init(h);
    for (int k = 0; k < 30; k++) {
        int   i = rn(ni), w = rn(4);
        void *at = chance(1, 3) || !in[i] ? h : o->node(it[i]);
        switch (rn(7)) {
            case 0: case 1:
                if (in[i])
                    o->del(it[i]);
                else
                    chance(1, 2) ? o->add(it[i], h) : o->add_tail(it[i], h);
                in[i] ^= 1;
                break;
            case 2: ASK(int, "list_empty", lw_empty(h)); break;
            case 3: ASK(uintptr_t, "list_next", (uintptr_t)lw_next(at) != 0); break;
            case 4: ASK(uintptr_t, "list_prev", (uintptr_t)lw_prev(at) != 0); break;
            case 5:
                if (in[i])
                    ASK(int, "list_is_last", o->is_last(it[i], h));
                break;
            default: ASK(int, "a walk over a list", o->walk(w, h, out, ni + 1, NULL, NULL)); break;
        }
    }
}
static int lg_save(uint8_t *ev, size_t pos) {
    OBS(ev[0]);
    OBS(pos);
    return chance(1, 10) ? -1 : 0;
}
static int lg_load(uint8_t *ev, size_t n, size_t start) {
    memset(ev, (int)start, n);
    return chance(1, 10) ? -1 : (int)n;
}
static void do_log(void) {
    circular_event_log_t tmp = {.max_events = 1 + rn(9), .event_size = 1 + rn(7), .save_new_event = lg_save, .load_events = lg_load};
    circular_event_log_t *l = mon_alloc(sizeof *l);
    memcpy(l, &tmp, sizeof tmp);
    uint8_t *e = rob(8), *out = mon_alloc(512);
    bytes(e, 8);
    for (int k = 0; k < 14; k++) {
        int r;
        RO("circular_event_log_new_event", r = circular_event_log_new_event(l, e));
        OBS(r);
    }
    used = 0;
    circular_event_log_t *c = ro(sizeof *c);
    memcpy(c, l, sizeof *c);
    ASK(size_t, "circular_event_log_total_events", circular_event_log_total_events(*c));
    RO("circular_event_log_load_last_events", circular_event_log_load_last_events(*c, out, rn(12), rn(12)));
}
typedef struct { uint8_t data[16][24], marker[16]; } wlst_t;
static int wl_rd(size_t b, uint8_t *buf, size_t len) { return memcpy(buf, ((wlst_t *)MON->user)->data[b & 15], len), chance(1, 15) ? -1 : 0; }
static int wl_wr(size_t b, uint8_t m, uint8_t *buf, size_t len) {
    wlst_t *s = MON->user;
    if (chance(1, 15))
        return -1;
    memcpy(s->data[b & 15], buf, len);
    s->marker[b & 15] = m;
    return 0;
}
static int wl_mk(size_t b, uint8_t *m) { return *m = ((wlst_t *)MON->user)->marker[b & 15], 0; }
static void do_wl(void) {
    size_t                n = 1 + rn(15), len = 1 + rn(24);
    wear_leveled_memory_t *w = mon_alloc(sizeof *w), *c;
    MON->user                = mon_zalloc(sizeof(wlst_t));
    memset(MON->user, 0xFF, sizeof(wlst_t));
    if (wearleveling_init(w, wl_rd, wl_wr, wl_mk, n) != 0)
        return;
    uint8_t *v = rob(len), *out = mon_alloc(len);
    bytes(v, len);
    for (int k = 0; k < 12; k++) {
        int r;
        if (chance(2, 3))
            v[rn(len)] = (uint8_t)rnd();
        RO("wearleveling_write", r = wearleveling_write(w, v, len));
        OBS(r);
        if (chance(1, 3)) {
            size_t keep = used;
            c           = ro(sizeof *c);
            *c          = *w;
            RO("wearleveling_read", r = wearleveling_read(c, out, len));
            OBS(r);
            used = keep;
        }
    }
}
static void do_ser(void) {
    uint8_t *b = rob(16), out[16], text[2];
    for (int k = 0; k < 12; k++) {
        bytes(b, 16);
        const des_t *d = chance(1, 2) ? &dess[rn(ndess)] : &unps[rn(nunps)];
        ASK(size_t, "a deserialize function", d->f(out, b));
    }
    (void)text;
    scheduler_entry_t *e = ro(sizeof *e), *o = mon_alloc(sizeof *o);
    uint8_t            enc[11];
    memset(e, 0, sizeof *e);
    e->enabled = (uint8_t)rn(2), e->days = (uint8_t)rnd(), e->start_second = (uint32_t)rbits(32), e->end_second = (uint32_t)rbits(32), e->value = (int)rn(256);
    ASK(size_t, "scheduler_entry_serialize", scheduler_entry_serialize(enc, e));
    memcpy(b, enc, 11);
    ASK(size_t, "scheduler_entry_deserialize", scheduler_entry_deserialize(o, b));
}
static void do_crc(void) {
    size_t   n = rn(chance(1, 5) ? 3000 : 60);
    uint8_t *m = rob(n + 1);
    bytes(m, n);
    unsigned v = (unsigned)rnd();
    ASK(unsigned, "crc16_ccitt", crc16_ccitt(m, (unsigned)n, (unsigned short)v));
    ASK(uint32_t, "crc32", crc32(m, n, v));
}
static void do_sched(void) {
    scheduler_t *s = ro(sizeof *s);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    size_t n = 1 + rn(12);
    ALLOCATES(scheduler_init(s, n));
    scheduler_entry_t *mine = ro(n * sizeof *mine);
    memcpy(mine, s->entries, n * sizeof *mine);
    s->entries = mine;
#else
    size_t n = GEL_SCHEDULER_MAX_ENTRIES;
    scheduler_init(s);
#endif
    scheduler_entry_t *c = ro(sizeof *c);
    struct tm         *tm = ro(sizeof *tm);
    for (int k = 0; k < 30; k++) {
        scheduler_entry_t e;
        memset(&e, 0, sizeof e);
        e.enabled = chance(3, 4), e.days = (uint8_t)(chance(1, 2) ? 0x7F : rn(128)), e.start_second = rn(86400), e.end_second = rn(chance(1, 4) ? 172801 : 86401), e.value = (int)rn(6);
        size_t i = rn(n + 1);
        *c       = e;
        memset(tm, 0, sizeof *tm);
        tm->tm_wday = rn(7), tm->tm_hour = rn(24), tm->tm_min = rn(60), tm->tm_sec = rn(60), tm->tm_mday = 1 + rn(31), tm->tm_mon = rn(12), tm->tm_year = 70 + rn(60), tm->tm_isdst = rr(-1, 1);
        int v = 0;
        switch (rn(16)) {
            case 0: case 1: case 2:
                if (e.end_second < e.start_second && chance(3, 4))
                    e.end_second = e.start_second + 1;
                scheduler_set_entry(s, i, e);
                break;
            case 3: scheduler_disable_schedule_entry(s, i); break;
            case 4: ASK(uintptr_t, "scheduler_get_entry", scheduler_get_entry(s, i) != NULL); break;
            case 5: ASK(int, "scheduler_is_schedule_entry_enabled", scheduler_is_schedule_entry_enabled(s, i)); break;
            case 6: ASK(int, "scheduler_get_active_entry_number", scheduler_get_active_entry_number(s, tm)); break;
            case 7: ASK(unsigned long, "scheduler_get_entry_duration", scheduler_get_entry_duration(c)); break;
            case 8: ASK(size_t, "scheduler_are_there_overlapping_entries", scheduler_are_there_overlapping_entries(s, c)); break;
            case 9: ASK(int, "scheduler_is_active", scheduler_is_active(s, tm)); break;
            case 10: ASK(int, "scheduler_current_value", scheduler_current_value(s, tm, &v)); break;
            case 11: ASK(int, "scheduler_get_next_enabled_entry", scheduler_get_next_enabled_entry(s, i)); break;
            case 12: ASK(int, "scheduler_get_first_available_entry", scheduler_get_first_available_entry(s)); break;
            case 13: ASK(unsigned, "scheduler_get_active_entries_map", scheduler_get_active_entries_map(s, tm)); break;
            case 14: ASK(unsigned long, "scheduler_get_schedule_remaining_duration", scheduler_get_schedule_remaining_duration(s, i, tm)); break;
            default:
                ASK(unsigned long, "scheduler_get_current_remaining_duration", scheduler_get_current_remaining_duration(s, tm));
                ASK(size_t, "scheduler_get_max_schedule_entries", scheduler_get_max_schedule_entries(s));
                break;
        }
    }
}
static void do_debounce(void) {
    debounce_filter_t *f = ro(sizeof *f);
    pulse_filter_t    *p = ro(sizeof *p);
    unsigned           in = (unsigned)rnd(), w = 0;
    int                d = rn(4);
    debounce_filter_init(f);
    pulse_filter_init(p, chance(1, 2) ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE, in);
    for (int k = 0; k < 40; k++) {
        int i = (int)rn(NUM_INPUTS + 1);
        if (chance(1, 3))
            in ^= 1u << rn(32);
        switch (rn(9)) {
            case 0: debounce_filter(f, in, d); break;
            case 1: i < NUM_INPUTS ? (void)debounce_filter_single(f, w++ & 1, i, d) : (void)0; break;
            case 2: chance(1, 4) ? debounce_filter_set(f, in) : (void)0; break;
            case 3: pulse_filter(p, in, d); break;
            case 4: pulse_clear(p, i); break;
            case 5: ASK(int, "debounce_read", debounce_read(f, i)); break;
            case 6: ASK(unsigned, "debounce_value", debounce_value(f)); break;
            case 7: ASK(int, "pulse_count", pulse_count(p, i)); break;
            default:
                i = i % PULSE_NUM;
                ASK(int, "pulse_level", pulse_level(p, i));
                break;
        }
    }
}
static void do_keypad(void) {
    int           n = 1 + rn(6);
    keypad_key_t *k = ro((n + 1) * sizeof *k);
    for (int i = 0; i < n; i++) {
        keypad_key_t key = KEYPAD_KEY(1ul << (i * 3) | (chance(1, 4) ? 1ul << rn(20) : 0), 10 + i);
        k[i]             = key;
    }
    keypad_key_t end = KEYPAD_NULL_KEY;
    k[n]             = end;
    keypad_reset_keys(k);
    unsigned long in = 0;
    now_             = (unsigned long)-100;
    for (int x = 0; x < 60; x++) {
        if (chance(1, 4))
            in = chance(1, 3) ? 0 : k[rn(n)].bitvalue;
        unsigned long t = later();
        if (chance(1, 2))
            keypad_routine(k, 10, 30, 8, t, in);
        else {
            keypad_key_t *key = &k[rn(n)];
            ASK(unsigned, "keypad_get_key_state", keypad_get_key_state(key));
        }
    }
}
static int fired;
static void tcb(gel_timer_t *t, void *u, void *a) { (void)t, (void)u, (void)a, fired++; }
static void do_time(void) {
    gel_timer_t *g = ro(sizeof *g);
    stopwatch_t *s = ro(sizeof *s);
    now_           = (unsigned long)-100;
    gel_timer_init(g, 5 + rn(60), later(), tcb, NULL);
    gel_timer_set_autoreload(g, chance(1, 2));
    stopwatch_init(s);
    for (int k = 0; k < 50; k++) {
        stopwatch_t  *w = chance(1, 3) ? &g->stopwatch : s;
        unsigned long t = later();
        switch (rn(14)) {
            case 0: stopwatch_start(s, t); break;
            case 1: stopwatch_pause(s, t); break;
            case 2: chance(1, 3) ? (void)stopwatch_stop(s) : (void)stopwatch_restart(s, t); break;
            case 3: chance(1, 2) ? (void)stopwatch_set(s, rn(80)) : stopwatch_change(s, rn(80), t); break;
            case 4: stopwatch_set_elapsed(s, rn(40)); break;
            case 5: gel_timer_manage_callback(g, t, NULL); break;
            case 6: chance(1, 2) ? gel_timer_pause(g, t) : gel_timer_resume(g, t); break;
            case 7: chance(1, 2) ? gel_timer_reset(g, t) : gel_timer_change_period(g, rn(60), t); break;
            case 8: ASK(int, "stopwatch_get_state", (int)stopwatch_get_state(w)); break;
            case 9: ASK(unsigned long, "stopwatch_get_total_time", stopwatch_get_total_time(w)); break;
            case 10: ASK(unsigned long, "stopwatch_get_elapsed", stopwatch_get_elapsed(w, t)); break;
            case 11:
                ASK(unsigned long, "stopwatch_get_remaining", stopwatch_get_remaining(w, t));
                ASK(unsigned long, "gel_timer_get_remaining", gel_timer_get_remaining(g, t));
                break;
            default: ASK(int, "stopwatch_is_timer_reached", stopwatch_is_timer_reached(w, t)); break;
        }
    }
}
static void wcb(void *mem, void *data) { OBS((uintptr_t)data); (void)mem; }
static void do_watch(void) {
    int       n = 1 + rn(5);
    watcher_t list[6], *l;
    struct { uint8_t a, b[9]; uint16_t c; uint32_t d; uint64_t e; } *m = ro(sizeof *m);
    now_ = (unsigned long)-60;
    memset(m, 0, sizeof *m);
    for (int i = 0; i < n; i++)
        switch (rn(5)) {
            case 0: list[i] = WATCHER(&m->a, wcb, (void *)(uintptr_t)i); break;
            case 1: list[i] = WATCHER_ARRAY(m->b, 1 + rn(9), wcb, (void *)(uintptr_t)i); break;
            case 2: list[i] = WATCHER_DELAYED(&m->c, wcb, (void *)(uintptr_t)i, 1 + rn(30)); break;
            case 3: list[i] = WATCHER(&m->d, wcb, (void *)(uintptr_t)i); break;
            default: list[i] = WATCHER_DELAYED(&m->e, wcb, (void *)(uintptr_t)i, rn(30)); break;
        }
    list[n] = WATCHER_NULL;
    l       = mon_alloc((n + 1) * sizeof *l);
    memcpy(l, list, (n + 1) * sizeof *l);
    ALLOCATES(RO("watcher_list_init", watcher_list_init(l)));
    for (int k = 0; k < 30; k++) {
        int r;
        if (chance(1, 3))
            ((uint8_t *)m)[rn(sizeof *m)]++;
        switch (rn(5)) {
            case 0: case 1: RO("watcher_process_changes", r = watcher_process_changes(l, later())); OBS(r); break;
            case 2: chance(1, 3) ? (void)0 : watcher_clear_changes(l, later()); break;
            case 3: RO("watcher_clear_changes", chance(1, 4) ? watcher_clear_changes(l, later()) : watcher_trigger_cb(l, (int)rn(n))); break;
            default: {
                size_t     keep = used;
                watcher_t *c    = ro((n + 1) * sizeof *c);
                memcpy(c, l, (n + 1) * sizeof *c);
                ASK(int, "watcher_check_for_changes", watcher_check_for_changes(c));
                used = keep;
            } break;
        }
    }
}
static void do_su(void) {
    for (int k = 0; k < 6; k++) {
        int    w = rn(SU_NFIELDS);
        size_t off, size;
        if (SU_FAR(w))
            continue;
        used         = 0;
        size_t  n = su_maxn(w) ? 1 + rn(su_maxn(w)) : 1;
        uint8_t *src = ro(n * su_esz(w));
        bytes(src, n * su_esz(w));
        if (w == 21)
            memset(src + 2, 0, 6);
        struct_update_t u;
        ALLOCATES(RO("struct_update_from_data", u = su_make(w, src, n, &off, &size)));
        used = 0;
        struct_update_t c = u;
        c.data            = rob(u.size);
        memcpy(c.data, u.data, u.size);
        su_t *t = mon_zalloc(offsetof(su_t, huge));
        RO("struct_update_apply", struct_update_apply(t, c));
        struct_update_free(u);
    }
}
#define RH(n) static int rh##n(sm_model_t *m, int e) { return (void)m, (e + n) % 5 - 1; }
RH(0) RH(1) RH(2) RH(3)
static void do_sm(void) {
    sm_fn_t  *tab = ro(4 * sizeof *tab);
    sm_fn_t   all[4] = {(sm_fn_t)rh0, (sm_fn_t)rh1, (sm_fn_t)rh2, (sm_fn_t)rh3};
    sm_obj_t *o   = mon_alloc(sizeof *o);
    memcpy(tab, all, sizeof all);
    sm_ops[0].setup(o, tab, rn(4));
    sm_ev_t *ev = ro(sizeof *ev);
    for (int k = 0; k < 10; k++) {
        int r;
        memset(ev, 0, sizeof *ev);
        ev->payload[0] = rn(1000);
        RO("a state machine's send_event (its table of handlers)", r = sm_ops[0].send(o, ro, ev));
        OBS(r);
    }
}
static void do_pid(void) {
    pid_ctrl_t *p = ro(sizeof *p);
    pid_init(p);
    pid_ctrl_tune(p, (float)rn(10), (float)rn(10), (float)rn(10));
    for (int k = 0; k < 50; k++)
        switch (rn(13)) {
            case 0: case 1: case 2: pid_add_input(p, (pid_control_type_t)rr(-100, 100)); break;
            case 3: pid_set_sp(p, (pid_control_type_t)rr(-100, 100)); break;
            case 4: pid_clear_integral_history(p), pid_set_auto_integral_clear(p, chance(1, 2)); break;
            case 5: pid_set_integral_high_threshold(p, rn(50)), pid_enable_integral_high_threshold(p, chance(1, 2)); break;
            case 6: pid_set_integral_low_threshold(p, rn(50)), pid_enable_integral_low_threshold(p, chance(1, 2)); break;
            case 7: pid_set_derivative_threshold(p, (pid_control_type_t)rn(50), (pid_control_type_t)rn(50)), pid_enable_derivative_threshold(p, chance(1, 2)); break;
            case 8: ASK(pid_output_type_t, "pid_compute", pid_compute(p)); break;
            case 9: ASK(pid_output_type_t, "pid_compute_p", pid_compute_p(p)); break;
            case 10: ASK(pid_output_type_t, "pid_compute_i", pid_compute_i(p)); break;
            case 11: ASK(pid_output_type_t, "pid_compute_d", pid_compute_d(p)); break;
            default: ASK(pid_output_type_t, "pid_current_error", pid_current_error(p)); break;
        }
}
static void do_param(void) {
    size_t              n  = 1 + rn(6);
    parameter_handle_t *t  = ro(n * sizeof *t);
    uint64_t           *v  = ro(n * sizeof *v), *lim = ro(2 * n * sizeof *lim);
    uint64_t           *rw = mon_zalloc(n * sizeof *rw);
    for (size_t i = 0; i < n; i++) {
        int    ty = (int)rn(NTYPES), live = chance(1, 3);
        decl_t d;
        memset(&d, 0, sizeof d);
        if (ty == T_F)
            d.min.f = -5, d.max.f = 50, d.def.f = 2, d.step.f = 1;
        else if (ty == T_D)
            d.min.d = -5, d.max.d = 50, d.def.d = 2, d.step.d = 1;
        else
            d.min.i = 1, d.max.i = 100, d.def.i = 7, d.step.i = 1 + rn(9);
        d.lvl = rn(4);
        if (live) {
            lim[2 * i] = d.min.u, lim[2 * i + 1] = d.max.u;
            if (ty == T_F)
                memcpy(&lim[2 * i], &d.min.f, 4), memcpy(&lim[2 * i + 1], &d.max.f, 4);
            d.pmin = &lim[2 * i], d.pmax = &lim[2 * i + 1];
        }
        v[i] = d.def.u;
        t[i] = par_declare(ty, chance(1, 2) ? (void *)&v[i] : (void *)&rw[i], &d);
        memcpy(t[i].pointer, &d.def, 8);
    }
    char *text = mon_alloc(400);
    for (int k = 0; k < 24; k++) {
        parameter_handle_t *h = &t[rn(n)], *got, clone, *out = mon_zalloc(sizeof *out);
        unsigned            al = rn(4);
        int                 mine = (char *)h->pointer < arena || (char *)h->pointer >= arena + ARENA;
        switch (rn(13)) {
            case 0: ASK(long, "parameter_to_long", parameter_to_long(h)); break;
            case 1: ASK(size_t, "parameter_to_index", parameter_to_index(h)); break;
            case 2: ASK(int, "parameter_to_bool", parameter_to_bool(h)); break;
            case 3: RO("parameter_to_string_format", parameter_to_string_format(h, text, "%.0s")); break;
            case 4: ASK(size_t, "parameter_get_count", parameter_get_count(t, n, al)); break;
            case 5: RO("parameter_get_handle", got = parameter_get_handle(t, n, rn(n), al)); OBS(got ? got - t : -1); break;
            case 6: ASK(size_t, "parameter_get_total_values", parameter_get_total_values(h)); break;
            case 7: RO("parameter_get_user_data", (void)parameter_get_user_data(h)); break;
            case 8: RO("parameter_clone (its source)", parameter_clone(out, h, mon_zalloc(16))); break;
            case 9: RO("parameter_clone_with_buffer (its source)", clone = parameter_clone_with_buffer(h, mon_zalloc(16))); OBS(clone.type); break;
            case 10: {
                int r;
                *out         = *h;
                out->pointer = mon_zalloc(16);
                RO("parameter_copy_value (its source)", r = parameter_copy_value(out, h));
                OBS(r);
            } break;
            case 11:
                if (mine) {
                    int r;
                    RO("parameter_operator (the handle and its limits)", r = parameter_operator(h, (int)rr(-20, 20)));
                    OBS(r);
                }
                break;
            default: {
                size_t f = 0;
                while (f < n && ((char *)t[f].pointer < arena || (char *)t[f].pointer >= arena + ARENA))
                    f++;
                if (f == 0)
                    break; /* the values of the first f parameters can be written */
                for (size_t i = 0; i < f; i++)
                    if (chance(1, 3) && t[i].type != 0)
                        memset(t[i].pointer, chance(1, 2) ? 0 : 0x55, 1);
                if (chance(1, 2))
                    RO("parameter_check_ranges (the table)", OBS(parameter_check_ranges(t, f)));
                else
                    RO("parameter_reset_to_defaults (the table)", parameter_reset_to_defaults(t, f));
            } break;
        }
    }
}
static pman_message_t pg_event(pman_model_t m, pman_page_data_t d, pman_event_t e) {
    pman_message_t r;
    (void)m, (void)d, (void)e;
    memset(&r, 0, sizeof r);
    return r;
}
static void do_pman(void) {
    page_manager_t *p = ro(sizeof *p);
    pman_page_t     a, *tmpl = ro(sizeof *tmpl);
    pman_model_t    model;
    pman_event_t    ev;
    uint8_t         found;
    int             deep = 0;
    memset(&model, 0, sizeof model);
    memset(&ev, 0, sizeof ev);
    memset(&a, 0, sizeof a);
    a.process_event = pg_event;
    pman_init(p);
    a.id = 1;
    pman_change_page(p, model, a);
    for (int k = 0; k < 20; k++) {
        a.id = (int)rn(6);
        switch (rn(7)) {
            case 0:
                if (deep + 1 < PMAN_NAVIGATION_DEPTH)
                    deep++, pman_change_page(p, model, a);
                break;
            case 1: pman_swap_page(p, model, a); break;
            case 2: deep -= deep > 0, pman_back(p, model); break;
            case 3:
                pman_reset_to_page(p, model, a.id, &found);
                if (!found)
                    pman_change_page(p, model, a);
                pman_rebase_page(p, model, a);
                deep = 0;
                break;
            case 4: RO("pman_page_update", (void)pman_page_update(p, model)); break;
            default: RO("pman_process_page_event", (void)pman_process_page_event(p, model, ev)); break;
        }
    }
    /* the page template */
    page_manager_t *q = mon_alloc(sizeof *q);
    used              = 0;
    tmpl              = ro(sizeof *tmpl);
    *tmpl             = a;
    pman_init(q);
    RO("pman_change_page (the page)", (void)pman_change_page(q, model, *tmpl));
}
static void x08(void) {
    static void (*const part[])(void) = {do_cbuf, do_cbuf, do_queue, do_stack, do_list, do_log, do_wl, do_ser, do_crc, do_sched, do_sched, do_debounce, do_keypad,
                                         do_time, do_watch, do_su, do_sm, do_pid, do_param, do_param, do_pman};
    unsigned total = 0, parts = 0;
    for (int k = 0; k < 3; k++) {
        fresh();
        part[rn(sizeof part / sizeof *part)]();
        total += asked;
        parts += asked > 0;
        mon_state(mon_mix(used, asked));
    }
    fresh();
    if (parts == 3 && total > 20)
        mon_nontrivial();
}
DRIVER("X08", x08,
       "random histories of every module in which objects that are asked and data that are handed over lie in memory that is "
       "write-protected during those calls, questions being repeated; non-trivial: over 20 protected calls to three modules")
