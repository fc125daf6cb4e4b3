/* T01: time comparisons; T02: stopwatch; T03: timers. */
#include "mon.h"
#include <limits.h>
#include "inst_time.h"
#include "timer/stopwatch.h"
#include "timer/timer.h"
#include "timer/timecheck.h"
unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp); /* not in the header */
#define HALF ((uint64_t)((timestamp_t)-1) / 2)

static void t01(void) {
    const time_ops_t *o    = &time_ops;
    uint64_t          mask = o->bits == 64 ? UINT64_MAX : (1ull << o->bits) - 1, half = mask / 2;
    int               wraps = 0, ends = 0;
    for (int k = 0; k < 64; k++) {
        uint64_t a = rbits(o->bits), d;
        switch (rn(5)) {
            case 0: d = rn(3); break;
            case 1: d = half - rn(3); break;
            case 2: d = rbits(o->bits) & half; break;
            default: d = rnd() % (half + 1); break;
        }
        uint64_t b = (a + d) & mask; /* b is d after a, d <= half - 1 + 1 below the ambiguous distance */
        wraps += b < a;
        OP("compare %#llx with %#llx (%llu later, type %s)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)d, o->name);
        CHECK_EQ(o->after(b, a), d > 0, "after", "time_after(later, earlier)");
        CHECK_EQ(o->after(a, b), 0, "after", "time_after(earlier, later)");
        CHECK_EQ(o->before(a, b), d > 0, "before", "time_before(earlier, later)");
        CHECK_EQ(o->before(b, a), 0, "before", "time_before(later, earlier)");
        CHECK_EQ(o->after_eq(b, a), 1, "after-or-equal", "time_after_or_equal(later, earlier)");
        CHECK_EQ(o->after_eq(a, b), d == 0, "after-or-equal", "time_after_or_equal(earlier, later)");
        CHECK_EQ(o->interval(a, b), d, "interval", "time_interval(earlier, later)");
        CHECK_EQ(o->interval(b, a), d, "interval", "time_interval(later, earlier)");
        /* a delay whose end instant is a or b, seen from the other */
        uint64_t delay = chance(1, 4) ? rn(3) : chance(1, 3) ? half - rn(3) : rnd() % (half + 1);
        uint64_t s1 = (a - delay) & mask, s2 = (b - delay) & mask;
        OP("delay of %llu", (unsigned long long)delay);
        CHECK_EQ(o->loose(s1, b, delay), 1, "loose", "expired at or after the end");
        CHECK_EQ(o->loose(s2, a, delay), d == 0, "loose", "expired before the end");
        CHECK_EQ(o->alias(s1, b, delay), 1, "loose", "expired at or after the end");
        CHECK_EQ(o->alias(s2, a, delay), d == 0, "loose", "expired before the end");
        CHECK_EQ(o->strict(s1, b, delay), d > 0, "strict", "strictly expired after the end");
        CHECK_EQ(o->strict(s2, a, delay), 0, "strict", "strictly expired before the end");
        ends += d == 0;
        mon_state(mon_mix(b < a, mon_mix(d < 4 ? d : d > half - 4 ? half - d + 8 : 5, delay < 4 ? delay : 9)));
    }
    if (wraps && ends)
        mon_nontrivial();
}
DRIVER("T01", t01,
       "64 random pairs of instants up to half the range apart (boundary values included) and delays ending at one of them; "
       "non-trivial: some pair straddled the wrap and some delay was seen at its end instant")

/* advancing clock of the configured type */
typedef struct { unsigned long now; int wraps; } clk_t;
static void advance(clk_t *c, uint64_t gap) {
    unsigned long b = c->now;
    c->now = (timestamp_t)(c->now + gap);
    c->wraps += c->now < b;
}
static void clk_start(clk_t *c, uint64_t scale) {
    c->now = (timestamp_t)(chance(1, 2) ? (timestamp_t)0 - (timestamp_t)rn(scale * 12 + 4) : (timestamp_t)rnd());
}

static void t02(void) {
    stopwatch_t *s = mon_guard(sizeof *s);
    uint64_t     S = chance(1, 5) ? HALF : 4 + rn(60);
    clk_t        c = {0};
    clk_start(&c, S > 1000 ? 1000 : S);
    if (chance(1, 4)) {
        stopwatch_t z = STOPWATCH_NULL;
        *s = z;
    } else {
        OP("init");
        stopwatch_init(s);
    }
    int      state = TIMER_STOPPED, reached = 0, pauses = 0, illegal = 0;
    uint64_t acc = 0, run = 0, total = 0; /* completed runs, the current run, the period */
    int      n = mon_long(40 + rn(120));
    for (int k = 0; k < n; k++) {
        uint64_t el = acc + (state == TIMER_COUNTING ? run : 0), gap;
        switch (rn(6)) {
            case 0: gap = total > el ? total - el : 0; break; /* to the deadline, one before, one after */
            case 1: gap = total > el ? total - el - 1 : 1; break;
            case 2: gap = total > el ? total - el + 1 : 0; break;
            case 3: gap = rn64(S); break;
            default: gap = rn(4); break;
        }
        uint64_t maxgap = HALF - (state == TIMER_COUNTING ? run : 0); /* a run spans less than half the range */
        if (acc + run > ULONG_MAX / 4)
            maxgap = 3 < maxgap ? 3 : maxgap;
        gap = gap > maxgap ? maxgap : gap;
        advance(&c, gap);
        if (state == TIMER_COUNTING)
            run += gap;
        int      r, op = rn(12);
        uint64_t p = chance(1, 8) ? HALF - rn(3) : rnd() % (S + 1);
        if (p > HALF)
            p = HALF;
        switch (op) {
            case 0: case 1: case 2:
                OP("start(%lu)", c.now);
                r = stopwatch_start(s, c.now);
                CHECK_EQ(r, state == TIMER_COUNTING ? -1 : 0, "start-result", "start");
                illegal |= state == TIMER_COUNTING;
                if (state != TIMER_COUNTING)
                    state = TIMER_COUNTING, run = 0;
                break;
            case 3: case 4:
                OP("pause(%lu)", c.now);
                r = stopwatch_pause(s, c.now);
                CHECK_EQ(r, state == TIMER_COUNTING ? 0 : -1, "pause-result", "pause");
                illegal |= state != TIMER_COUNTING;
                if (state == TIMER_COUNTING)
                    state = TIMER_PAUSED, acc += run, run = 0, pauses++;
                break;
            case 5:
                if (!seldom(1, 2))
                    break;
                OP("stop");
                r = stopwatch_stop(s);
                CHECK_EQ(r, state == TIMER_STOPPED ? -1 : 0, "stop-result", "stop");
                if (state == TIMER_STOPPED) {
                    /* whether the preset survives a refused stop is not documented */
                    unsigned long e = stopwatch_get_elapsed(s, c.now);
                    CHECK(e == 0 || e == acc, "elapsed", "elapsed %lu after a refused stop, was %llu", e, (unsigned long long)acc);
                    acc = e;
                    illegal = 1;
                } else
                    acc = 0;
                state = TIMER_STOPPED, run = 0;
                break;
            case 6:
                if (!seldom(1, 2))
                    break;
                OP("restart(%lu)", c.now);
                CHECK_EQ(stopwatch_restart(s, c.now), 0, "restart-result", "restart");
                state = TIMER_COUNTING, acc = run = 0;
                break;
            case 7: case 8:
                OP("set(%llu)", (unsigned long long)p);
                CHECK_EQ(stopwatch_set(s, p), state == TIMER_STOPPED ? 0 : -1, "set-result", "set");
                if (state == TIMER_STOPPED)
                    total = p;
                break;
            case 9:
                if (!seldom(1, 3))
                    break;
                OP("change(%llu, %lu)", (unsigned long long)p, c.now);
                stopwatch_change(s, p, c.now);
                total = p, state = TIMER_COUNTING, acc = run = 0;
                break;
            case 10:
                OP("set_elapsed(%llu)", (unsigned long long)p);
                CHECK_EQ(stopwatch_set_elapsed(s, p), state == TIMER_STOPPED ? 0 : -1, "set-elapsed-result", "set_elapsed");
                if (state == TIMER_STOPPED)
                    acc = p;
                break;
            default:
                if (chance(1, 2)) {
                    OP("setngo(%llu, %lu)", (unsigned long long)p, c.now);
                    stopwatch_setngo(s, p, c.now);
                    if (state == TIMER_STOPPED)
                        total = p;
                    if (state != TIMER_COUNTING)
                        state = TIMER_COUNTING, run = 0;
                }
                break;
        }
        el = acc + (state == TIMER_COUNTING ? run : 0);
        OP("queries at %lu", c.now);
        CHECK_EQ(stopwatch_get_state(s), state, "state", "state");
        CHECK_EQ(stopwatch_get_total_time(s), total, "period", "period");
        CHECK_EQ(stopwatch_get_elapsed(s, c.now), el, "elapsed", "elapsed time");
        CHECK_EQ(stopwatch_get_remaining(s, c.now), el < total ? total - el : 0, "remaining", "remaining time");
        if (state != TIMER_STOPPED) {
            CHECK_EQ(stopwatch_is_timer_reached(s, c.now) != 0, el >= total, "reached", "timer reached");
            reached |= el >= total && total > 0;
        }
        mon_guard_check(s, "stopwatch");
        mon_state(mon_mix(state, mon_mix(acc > 0, mon_mix(run > 0, mon_mix(el >= total, op)))));
    }
    if (reached && pauses > 1 && illegal)
        mon_nontrivial();
}
DRIVER("T02", t02,
       "random histories of all stopwatch calls with clock steps aimed at the deadline and the clock near its wrap half of the "
       "time; non-trivial: the period was reached, several pauses and an illegal transition happened");

#define NT 4
typedef struct {
    gel_timer_t *t;
    int          known, armed, paused, autoreload;
    uint64_t     period, ran, acc; /* time running since armed; part of it before the current run */
    void        *arg;
    int          fires;
} mtimer_t;
typedef struct {
    gel_timer_t *last;
    void        *user, *arg;
    int          calls, reload; /* reload: new setting made by the callback, or -1 */
    int          other, what;   /* another timer that the callback acts on, or -1, and how */
    uint64_t     period;
    unsigned     acted;
    clk_t        c;
    mtimer_t     m[NT];
} cb_t;
static void timer_cb(gel_timer_t *t, void *user, void *arg);
/* One call concerning timer i, on the library and in the model. */
static void timer_op(cb_t *s, int i, unsigned what, uint64_t p) {
    mtimer_t *m  = s->m;
    cb_t     *cb = s;
    switch (what) {
        case 0:
            if (seldom(1, 3)) {
                m[i].arg = (char *)cb + rn(8);
                OP("timer %d: init(period %llu, %lu)", i, (unsigned long long)p, s->c.now);
                gel_timer_init(m[i].t, p, s->c.now, timer_cb, m[i].arg);
                m[i].known = m[i].armed = 1, m[i].paused = 0, m[i].autoreload = 0, m[i].period = p, m[i].ran = m[i].acc = 0;
            }
            break;
        case 1:
            if (seldom(1, 3)) {
                OP("timer %d: stop", i);
                gel_timer_stop(m[i].t);
                m[i].armed = m[i].paused = 0;
            }
            break;
        case 2: case 3:
            if (m[i].armed || m[i].known) { /* also while it is stopped */
                m[i].autoreload = chance(3, 4) ? (chance(1, 2) ? 1 : 255) : 0;
                OP("timer %d: autoreload %d", i, m[i].autoreload);
                gel_timer_set_autoreload(m[i].t, m[i].autoreload);
            }
            break;
        case 4: case 5:
            OP("timer %d: pause(%lu)", i, s->c.now);
            gel_timer_pause(m[i].t, s->c.now);
            if (m[i].armed && !m[i].paused)
                m[i].paused = 1, m[i].acc = m[i].ran;
            break;
        case 6: case 7:
            if (m[i].armed || (m[i].known && seldom(1, 2))) { /* a stopped timer starts over */
                OP("timer %d: resume(%lu)%s", i, s->c.now, m[i].armed ? "" : " after it was stopped");
                gel_timer_resume(m[i].t, s->c.now);
                if (!m[i].armed)
                    m[i].armed = 1, m[i].ran = m[i].acc = 0;
                m[i].paused = 0;
            }
            break;
        case 8:
            if (!seldom(1, 1))
                break;
            OP("timer %d: reset(%lu)", i, s->c.now);
            gel_timer_reset(m[i].t, s->c.now);
            m[i].ran = m[i].acc = 0;
            break;
        case 9:
            OP("timer %d: change_period(%llu, %lu)", i, (unsigned long long)p, s->c.now);
            gel_timer_change_period(m[i].t, p, s->c.now);
            m[i].ran = m[i].acc = 0;
            if (m[i].armed)
                m[i].period = p;
            break;
        default: break;
    }
}
static void timer_cb(gel_timer_t *t, void *user, void *arg) {
    cb_t *c = MON->user;
    c->calls++;
    c->last = t, c->user = user, c->arg = arg;
    if (c->reload >= 0)
        gel_timer_set_autoreload(t, (uint8_t)c->reload);
    if (c->other >= 0) {
        timer_op(c, c->other, (unsigned)c->what, c->period);
        c->acted++;
    }
}
static void t03(void) {
    cb_t     *cb = mon_zalloc(sizeof *cb), *s = cb;
    mtimer_t *m  = s->m;
    MON->user    = cb;
    int      n = 1 + rn(NT), fired_n = 0, repeats = 0, pausedfor = 0;
    uint64_t S = chance(1, 8) ? HALF / 2 : 4 + rn(40);
    clk_start(&s->c, S > 1000 ? 1000 : S);
    for (int i = 0; i < n; i++) {
        memset(&m[i], 0, sizeof m[i]);
        m[i].t = mon_guard(sizeof *m[i].t);
        if (chance(1, 2)) {
            *m[i].t = GEL_TIMER_NULL; /* never armed: silent */
        } else {
            m[i].arg    = (char *)cb + rn(8);
            m[i].period = rn64(S);
            m[i].known = m[i].armed = 1;
            OP("timer %d: init(period %llu, %lu)", i, (unsigned long long)m[i].period, s->c.now);
            CHECK(gel_timer_init(m[i].t, m[i].period, s->c.now, timer_cb, m[i].arg) == m[i].t, "init-result", "gel_timer_init returned another pointer");
        }
    }
    int steps = mon_long(60 + rn(200));
    for (int k = 0; k < steps; k++) {
        int      i = rn(n);
        uint64_t gap, left = m[i].armed && !m[i].paused && m[i].period > m[i].ran ? m[i].period - m[i].ran : 0;
        switch (rn(5)) {
            case 0: gap = left; break;
            case 1: gap = left ? left - 1 : 0; break;
            case 2: gap = rn64(S); break;
            default: gap = rn(3); break;
        }
        for (int j = 0; j < n; j++) /* every run spans less than half the range */
            if (m[j].armed && !m[j].paused) {
                uint64_t room = HALF - (m[j].ran - m[j].acc);
                gap = gap > room ? room : gap;
            }
        advance(&s->c, gap);
        for (int j = 0; j < n; j++)
            if (m[j].armed && !m[j].paused)
                m[j].ran += gap;
        uint64_t p = rn(6) == 0 ? 0 : rnd() % (S + 1);
        timer_op(s, i, rn(16), p);
        int all = chance(1, 2);
        for (int j = all ? 0 : i; j < (all ? n : i + 1); j++) {
            void *user = chance(1, 4) ? NULL : (char *)&m[j];
            int   due = m[j].armed && m[j].ran >= m[j].period;
            cb->calls  = 0;
            cb->reload = chance(1, 6) ? (chance(1, 2) ? 1 : 0) : -1;
            cb->other  = n > 1 && chance(1, 4) ? (int)((j + 1 + rn(n - 1)) % n) : -1;
            cb->what   = rn(16);
            cb->period = rn64(S);
            OP("timer %d: service(%lu)%s%s", j, s->c.now, due ? " due" : "", cb->reload < 0 ? "" : cb->reload ? ", the callback switches automatic reload on" : ", the callback switches automatic reload off");
            int r = gel_timer_manage_callback(m[j].t, s->c.now, user);
            int f = cb->calls;
            OBS(f);
            CHECK((r != 0) == (f != 0), "service-result", "service returned %d, callback ran %d times", r, f);
            if (due)
                CHECK(f == 1, f ? "fired-twice" : "missed", "timer %d ran for %llu of its period %llu: callback ran %d times", j,
                      (unsigned long long)m[j].ran, (unsigned long long)m[j].period, f);
            else
                CHECK(f == 0, "spurious", "timer %d fired although %s (%llu of %llu)", j, m[j].armed ? m[j].paused ? "paused" : "its period is not over" : "not armed",
                      (unsigned long long)m[j].ran, (unsigned long long)m[j].period);
            if (f) {
                CHECK(cb->last == m[j].t, "cb-timer", "the callback received another timer");
                CHECK(cb->user == user, "cb-user", "the callback received another user pointer");
                CHECK(cb->arg == m[j].arg, "cb-arg", "the callback received another argument");
                fired_n++;
                m[j].fires++;
                repeats += m[j].autoreload && m[j].fires > 1;
                pausedfor += m[j].acc > 0;
                m[j].ran = m[j].acc = 0;
                m[j].paused = 0;
                if (cb->reload >= 0)
                    m[j].autoreload = cb->reload;
                if (!m[j].autoreload)
                    m[j].armed = 0;
            }
            if (m[j].armed) {
                OP("timer %d: remaining", j);
                CHECK_EQ(gel_timer_get_remaining(m[j].t, s->c.now), m[j].ran < m[j].period ? m[j].period - m[j].ran : 0, "remaining", "remaining time");
            }
            mon_guard_check(m[j].t, "timer");
            mon_state(mon_mix(m[j].armed, mon_mix(m[j].paused, mon_mix(m[j].autoreload, mon_mix(m[j].ran >= m[j].period, f)))));
        }
    }
    if (fired_n > 2 && repeats && pausedfor && (n == 1 || cb->acted))
        mon_nontrivial();
}
DRIVER("T03", t03,
       "random histories of all timer calls on 1..4 timers serviced at random moments, clock steps aimed at the deadlines and the "
       "wrap; non-trivial: several firings, repeated ones and one after a pause");
