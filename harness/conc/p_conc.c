/* C01, C03: one writer and one reader of a ring buffer under controlled schedules. */
#include "mon.h"
#include "conc_rt.h"
#include "collections/circular_buffer.h"

#define ESZ sizeof(GEL_CBUF_TYPE)
#define MAXOPS 64
enum { W_PUTS, W_PUTC, W_FULL_PUTC, W_SIZE_PUTS, W_QUERY, R_GETS, R_GETC, R_PEEK, R_DROP, R_SIZE_GETS, R_EMPTY_GETC, R_QUERY, R_GETC_NULL };
typedef struct {
    int    op;
    size_t len;
} op_t;
typedef struct {
    int             property;
    circular_buf_t *cb;
    GEL_CBUF_TYPE  *mem;
    size_t          cap;
    op_t            ops[2][MAXOPS];
    int             n[2];
    /* ghosts: elements whose put/get call has returned, and those of the call in progress */
    uint64_t       hs, ts, hfly, tfly;
    GEL_CBUF_TYPE *src, *dst;
    size_t         maxlen;
    uint64_t       moved, partial, full, empty;
} st_t;
#define ST st_t *s = MON->user
#define BUDGET(len) (2000 + 60 * (uint64_t)(len) * (ESZ + 4))
/* In the relaxed-memory mode a thread may legally act on older values of the other's index: only safety is judged. */
static int judge_progress(st_t *s, const sched_t *q) { return s->property == 1 && !q->stale; }

static sched_t Q;
/* Behaviour is C01's business: when it fails while races are judged, the case ends there. */
static void quit_quietly(void);
#define JUDGE(cond, ...)                                                                                               \
    do {                                                                                                               \
        if (s->property == 1)                                                                                          \
            CHECK(cond, __VA_ARGS__);                                                                                  \
        else if (!(cond))                                                                                              \
            quit_quietly();                                                                                            \
    } while (0)


static void writer(st_t *s, op_t *o) {
    uint64_t room = s->hs - s->ts > s->cap ? 0 : s->cap - (s->hs - s->ts); /* at least this much is free */
    size_t   len  = o->len;
    int      r;
    for (size_t i = 0; i < len + 1; i++) /* the single puts take the first */
        mon_elem((uint8_t *)s->src + i * ESZ, ESZ, s->hs + i);
    switch (o->op) {
        case W_SIZE_PUTS: {
            TR("W size, then puts what is free");
            conc_call(BUDGET(0));
            size_t n = circular_buf_size(s->cb);
            conc_return();
            JUDGE(n <= s->cap, "size-bounds", "the writer saw a fill level of %zu, capacity %zu", n, s->cap);
            len = s->cap - n;
            for (size_t i = 0; i < len; i++)
                mon_elem((uint8_t *)s->src + i * ESZ, ESZ, s->hs + i);
            s->hfly = len;
            conc_call(BUDGET(len));
            r = circular_buf_puts(s->cb, s->src, len);
            conc_return();
            TR("W puts(%zu) -> %d", len, r);
            JUDGE(s->property != 1 || r == (int)len || Q.stale, "free-space-refused", "the writer saw room for %zu elements but could put only %d", len, r);
            JUDGE(r >= 0 && r <= (int)len, "puts-count", "puts of %zu elements returned %d", len, r);
            break;
        }
        case W_PUTS:
            s->hfly = len;
            TR("W puts(%zu), at least %llu free", len, (unsigned long long)room);
            conc_call(BUDGET(len));
            r = circular_buf_puts(s->cb, s->src, len);
            conc_return();
            TR("W puts -> %d", r);
            JUDGE(r >= 0 && r <= (int)len, "puts-count", "puts of %zu elements returned %d", len, r);
            if (judge_progress(s, &Q))
                JUDGE((uint64_t)r >= (len < room ? len : room), "puts-refused", "puts of %zu elements accepted %d although %llu were free", len, r,
                      (unsigned long long)room);
            break;
        case W_FULL_PUTC: {
            conc_call(BUDGET(0));
            int f = is_circular_buf_full(s->cb);
            conc_return();
            TR("W full -> %d", f);
            if (judge_progress(s, &Q))
                JUDGE(!f || room == 0, "full-wrong", "the writer was told the buffer is full although %llu were free", (unsigned long long)room);
            s->hfly = 1;
            conc_call(BUDGET(1));
            r = circular_buf_putc(s->cb, s->src[0]) == 0;
            conc_return();
            TR("W putc -> %d", r);
            JUDGE(s->property != 1 || f || r || Q.stale, "free-space-refused", "putc refused although the writer saw the buffer was not full");
            break;
        }
        case W_PUTC:
            s->hfly = 1;
            TR("W putc, at least %llu free", (unsigned long long)room);
            conc_call(BUDGET(1));
            r = circular_buf_putc(s->cb, s->src[0]) == 0;
            conc_return();
            TR("W putc -> %d", r);
            if (judge_progress(s, &Q))
                JUDGE(r || room == 0, "putc-refused", "putc refused although %llu were free", (unsigned long long)room);
            break;
        default: {
            conc_call(BUDGET(0));
            size_t n = circular_buf_size(s->cb);
            int    e = is_circular_buf_empty(s->cb);
            size_t c = circular_buf_capacity(s->cb);
            conc_return();
            TR("W size %zu empty %d capacity %zu", n, e, c);
            JUDGE(c == s->cap, "capacity", "capacity %zu, expected %zu", c, s->cap);
            JUDGE(n <= s->cap, "size-bounds", "the writer saw a fill level of %zu, capacity %zu", n, s->cap);
            if (judge_progress(s, &Q)) {
                /* the reader only removes: between the level before the call and what is left after it */
                JUDGE(n <= s->cap - room, "size-bounds", "the writer saw a fill level of %zu, at most %llu were stored", n,
                      (unsigned long long)(s->cap - room));
                JUDGE(n + s->ts + s->tfly >= s->hs, "size-bounds", "the writer saw a fill level of %zu, at least %llu were stored", n,
                      (unsigned long long)(s->hs - s->ts - s->tfly));
                JUDGE(!e || s->hs <= s->ts + s->tfly, "empty-wrong", "the writer was told the buffer is empty while it is not");
            }
            r = 0;
        }
    }
    if (r > 0)
        s->moved++;
    else
        s->full++;
    s->hs += (uint64_t)r;
    s->hfly = 0;
}

static void reader(st_t *s, op_t *o) {
    uint64_t stored = s->hs > s->ts ? s->hs - s->ts : 0; /* at least this much is there */
    size_t   len    = o->len;
    int      r = 0, consume = 1, data = 1;
    switch (o->op) {
        case R_SIZE_GETS: {
            conc_call(BUDGET(0));
            size_t n = circular_buf_size(s->cb);
            conc_return();
            TR("R size -> %zu", n);
            JUDGE(n <= s->cap, "size-bounds", "the reader saw a fill level of %zu, capacity %zu", n, s->cap);
            if (judge_progress(s, &Q))
                JUDGE(n >= stored, "size-bounds", "the reader saw a fill level of %zu, at least %llu were stored", n, (unsigned long long)stored);
            len     = n;
            s->tfly = len;
            conc_call(BUDGET(len));
            r = circular_buf_gets(s->cb, s->dst, (int)len);
            conc_return();
            TR("R gets(%zu) -> %d", len, r);
            JUDGE(s->property != 1 || r == (int)len || Q.stale, "level-not-readable", "the reader saw %zu elements but could get only %d", len, r);
            break;
        }
        case R_GETS:
            s->tfly = len;
            TR("R gets(%zu), at least %llu stored", len, (unsigned long long)stored);
            conc_call(BUDGET(len));
            r = circular_buf_gets(s->cb, s->dst, (int)len);
            conc_return();
            TR("R gets -> %d", r);
            break;
        case R_DROP:
            s->tfly = len;
            TR("R drop(%zu), at least %llu stored", len, (unsigned long long)stored);
            conc_call(BUDGET(len));
            r = circular_buf_drop(s->cb, (int)len);
            conc_return();
            TR("R drop -> %d", r);
            data = 0;
            break;
        case R_PEEK:
            TR("R peek(%zu), at least %llu stored", len, (unsigned long long)stored);
            conc_call(BUDGET(len));
            r = circular_buf_peek(s->cb, s->dst, (int)len);
            conc_return();
            TR("R peek -> %d", r);
            consume = 0;
            break;
        case R_EMPTY_GETC: {
            conc_call(BUDGET(0));
            int e = is_circular_buf_empty(s->cb);
            conc_return();
            TR("R empty -> %d", e);
            if (judge_progress(s, &Q))
                JUDGE(!e || stored == 0, "empty-wrong", "the reader was told the buffer is empty although %llu were stored", (unsigned long long)stored);
            len     = 1;
            s->tfly = 1;
            conc_call(BUDGET(1));
            r = circular_buf_getc(s->cb, s->dst) == 0;
            conc_return();
            TR("R getc -> %d", r);
            JUDGE(s->property != 1 || e || r || Q.stale, "level-not-readable", "getc failed although the reader saw the buffer was not empty");
            break;
        }
        case R_GETC:
        case R_GETC_NULL:
            len     = 1;
            s->tfly = 1;
            data    = o->op == R_GETC;
            conc_call(BUDGET(1));
            r = circular_buf_getc(s->cb, data ? s->dst : NULL) == 0;
            conc_return();
            TR("R getc -> %d", r);
            break;
        default: {
            conc_call(BUDGET(0));
            size_t n = circular_buf_size(s->cb);
            int    f = is_circular_buf_full(s->cb);
            conc_return();
            TR("R size %zu full %d", n, f);
            JUDGE(n <= s->cap, "size-bounds", "the reader saw a fill level of %zu, capacity %zu", n, s->cap);
            if (judge_progress(s, &Q)) {
                JUDGE(n >= stored, "size-bounds", "the reader saw a fill level of %zu, at least %llu were stored", n, (unsigned long long)stored);
                JUDGE(n <= s->hs + s->hfly - s->ts, "size-bounds", "the reader saw a fill level of %zu, at most %llu were stored", n,
                      (unsigned long long)(s->hs + s->hfly - s->ts));
                JUDGE(!f || s->hs + s->hfly - s->ts >= s->cap, "full-wrong", "the reader was told the buffer is full while it is not");
            }
            return;
        }
    }
    JUDGE(r >= 0 && r <= (int)len, "gets-count", "a read of %zu elements returned %d", len, r);
    JUDGE((uint64_t)r <= s->hs + s->hfly - s->ts, "invented", "the reader got %d elements, at most %llu had been offered", r,
          (unsigned long long)(s->hs + s->hfly - s->ts));
    if (judge_progress(s, &Q))
        JUDGE((uint64_t)r >= (len < stored ? len : stored), "gets-refused", "a read of %zu elements returned %d although %llu were stored", len, r,
              (unsigned long long)stored);
    if (data)
        for (int i = 0; i < r; i++)
            JUDGE(mon_elem_is((uint8_t *)s->dst + i * ESZ, ESZ, s->ts + (uint64_t)i), "fifo",
                  "element %d of %d read is not the one written at position %llu of the stream (lost, repeated, reordered or invented)", i, r,
                  (unsigned long long)(s->ts + (uint64_t)i));
    if (r > 0)
        s->moved++;
    else
        s->empty++;
    if (consume)
        s->ts += (uint64_t)r;
    s->tfly = 0;
}

static void quit_quietly(void) {
    const char *race = conc_race();
    if (race)
        mon_fail("race", "%s", race);
    mon_abandon();
}
static void task(int id) {
    ST;
    for (int i = 0; i < s->n[id]; i++) {
        if (id == 0)
            writer(s, &s->ops[0][i]);
        else
            reader(s, &s->ops[1][i]);
    }
}

static void gen_sched(uint64_t span) {
    memset(&Q, 0, sizeof Q);
    Q.rng  = rnd();
    Q.kind = rn(SCHED_KINDS);
    Q.rate = 1u << rn(7);
    switch (Q.kind) {
        case SCHED_PREEMPT: Q.npre = 1 + rn(4); break;
        case SCHED_PRIORITY: Q.npre = 1 + rn(8); break;
        default: break;
    }
    uint32_t at = 0;
    for (int i = 0; i < Q.npre; i++) {
        at += 1 + (uint32_t)(rnd() % (span / (unsigned)Q.npre + 1));
        Q.pre[i] = at;
        Q.len[i] = chance(1, 3) ? 0 : 1 + (uint32_t)(rnd() % 120);
    }
}
static void run(int property) {
    conc_stop();
    st_t *s     = mon_zalloc(sizeof *s);
    MON->user   = s;
    s->property = property;
    size_t bufsize = chance(1, 10) ? 30 + rn(100) : 1 + rn(9);
    if (bufsize == 1 && chance(4, 5))
        bufsize = 2 + rn(4);
    s->cap    = bufsize - 1;
    s->maxlen = 2 * bufsize + 4;
    s->cb     = mon_alloc(sizeof *s->cb);
    s->mem    = mon_guard(bufsize * ESZ);
    s->src    = mon_guard(s->maxlen * ESZ);
    s->dst    = mon_guard(s->maxlen * ESZ);
    OP("init, capacity %zu, elements of %zu bytes", s->cap, ESZ);
    CHECK_EQ(circular_buf_init(s->cb, s->mem, bufsize), 0, "init", "init");
    /* start anywhere in the ring */
    uint64_t pre = rn(2 * bufsize), k;
    for (k = 0; k < pre && s->cap; k++) {
        mon_elem(s->src, ESZ, s->hs);
        circular_buf_putc(s->cb, s->src[0]);
        s->hs++;
        if (s->hs - s->ts == s->cap || chance(3, 4)) {
            circular_buf_getc(s->cb, s->dst);
            s->ts++;
        }
    }
    int tiny = chance(1, 2);
    for (int t = 0; t < 2; t++) {
        s->n[t] = tiny ? 1 + rn(4) : 4 + rn(bufsize > 20 ? 16 : MAXOPS - 4);
        for (int i = 0; i < s->n[t]; i++) {
            op_t *o = &s->ops[t][i];
            switch (rn(5)) {
                case 0: o->len = s->cap; break;
                case 1: o->len = rn(s->maxlen - 1); break;
                case 2: o->len = 1 + rn(2); break;
                default: o->len = rn(s->cap + 3); break;
            }
            if (t == 0)
                o->op = chance(1, 2) ? W_PUTS : W_PUTS + (int)rn(5);
            else
                o->op = chance(1, 2) ? R_GETS : R_GETS + (int)rn(8);
        }
    }
    gen_sched(tiny ? 120 : 1500);
    Q.stale = chance(1, 3);
    Q.quiet = property == 3;
    region_t reg[2] = {{"buffer descriptor", s->cb, sizeof *s->cb}, {"element storage", s->mem, bufsize * ESZ}};
    TR("%d writer and %d reader operations, schedule kind %d, rate %u%s", s->n[0], s->n[1], Q.kind, Q.rate, Q.stale ? ", older index values" : "");
    conc_run(&Q, task, reg, 2);
    const char *race = conc_race();
    if (race) {
        TR("race: %s", race);
        if (property == 3)
            mon_fail("race", "%s", race);
    }
    MON->events += conc_accesses();
    MON->ops += (uint64_t)(s->n[0] + s->n[1]);
    /* nothing may be left behind or appear from nowhere */
    uint64_t left = s->hs - s->ts;
    Q.stale       = 0;
    OP("final read of %llu", (unsigned long long)left);
    size_t got = circular_buf_size(s->cb);
    JUDGE(got == left, "lost", "%zu elements left after both threads ended, expected %llu", got, (unsigned long long)left);
    int all = circular_buf_gets(s->cb, s->dst, (int)s->maxlen);
    JUDGE(all == (int)left, "lost", "%d elements read after both threads ended, expected %llu", all, (unsigned long long)left);
    for (uint64_t i = 0; i < left; i++)
        JUDGE(mon_elem_is((uint8_t *)s->dst + i * ESZ, ESZ, s->ts + i), "fifo", "element %llu left in the buffer is not the one written",
              (unsigned long long)i);
    if (property == 1) {
        mon_guard_check(s->mem, "ring storage");
        mon_guard_check(s->dst, "read destination");
    }
    OBS(conc_signature());
    mon_state(conc_signature());
    if (conc_switches() > 0 && conc_overlaps() > 0 && s->moved > 1)
        mon_nontrivial();
}
static void c01(void) { run(1); }
static void c03(void) { run(3); }
DRIVER("C01", c01,
       "random writer and reader programs on rings of 1..130 slots, starting anywhere in the ring, interleaved at every memory access by four "
       "kinds of schedulers and in a relaxed-memory mode; non-trivial: the threads were switched inside a call while the other was inside one, "
       "and elements moved (distinct by interleaving)")
DRIVER("C03", c03,
       "the same executions judged by a vector-clock race detector on the buffer's descriptor and storage; non-trivial: the threads were "
       "switched inside a call while the other was inside one, and elements moved (distinct by interleaving)")
