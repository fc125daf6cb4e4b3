/* D01, D02: debounce filter and pulse counter against per-input counters. */
#include "mon.h"
#include "debounce/debounce.h"
#define DB_NTH NTH
#undef NTH
#include "debounce/pulsecounter.h"
#define NIN 32

typedef struct {
    uint8_t  level[NIN];
    uint32_t run[NIN]; /* consecutive readings that differ */
    uint32_t count[NIN];
} model_t;
/* one reading of one input; returns 1 when the level changes */
static int reading(model_t *m, int i, int raw, uint32_t debounce) {
    if (raw == m->level[i]) {
        m->run[i] = 0;
        return 0;
    }
    if (++m->run[i] < (uint64_t)debounce + 1)
        return 0;
    m->run[i]   = 0;
    m->level[i] = (uint8_t)raw;
    return 1;
}
static unsigned word(model_t *m) {
    unsigned w = 0;
    for (int i = 0; i < NIN; i++)
        w |= (unsigned)m->level[i] << i;
    return w;
}
static void set(model_t *m, unsigned w) {
    for (int i = 0; i < NIN; i++)
        m->level[i] = w >> i & 1, m->run[i] = 0;
}
static int idle(model_t *m) {
    for (int i = 0; i < NIN; i++)
        if (m->run[i])
            return 0;
    return 1;
}
/* rarely: more consecutive differing readings, or more pulses, than 16 bits hold (only every 32nd of these
   readings has its results compared for all inputs) */
static void long_run(debounce_filter_t *f, pulse_filter_t *pf, int high) {
    int      pulses = pf && chance(1, 2), more = chance(1, 3) ? (int)rn(140000) : 0, db = pulses ? 0 : 65500 + (int)rn(200) + more;
    unsigned init = (unsigned)rnd(), mask = (unsigned)rbits(32) | 1u << rn(NIN);
    model_t *m = mon_zalloc(sizeof *m);
    OP("long history: debounce %d, inputs %#x", db, mask);
    if (pf)
        pulse_filter_init(pf, high ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE, init);
    else
        debounce_filter_init(f), debounce_filter_set(f, init);
    set(m, init);
    unsigned raw = init;
    for (int k = 0, n = pulses ? 2 * (65540 + more) + (int)rn(300) : db + 40 + (int)rn(40); k < n; k++) {
        int expect = 0;
        if (pulses || k == 2)
            raw ^= mask;
        for (int i = 0; i < NIN; i++) {
            int c = reading(m, i, raw >> i & 1, db);
            if (pf && c)
                c = m->level[i] == !high, m->count[i] += c;
            expect |= c;
        }
        mon_op(1u << 20);
        int got = pf ? pulse_filter(pf, raw, db) : debounce_filter(f, raw, db) != 0;
        CHECK(got == expect, "change", "reading %d of a long history (debounce %d): change %d reported, expected %d", k, db, got, expect);
        if (k % 32 == 0 || k > n - 90)
            for (int i = 0; i < NIN; i++) {
                if (pf) {
                    CHECK_EQ(pulse_count(pf, i), (int)m->count[i], "count", "count of an input in a long history");
                    CHECK_EQ(pulse_level(pf, i), m->level[i], "level", "filtered level in a long history");
                } else
                    CHECK_EQ(debounce_read(f, i), m->level[i], "level", "level in a long history");
            }
    }
}
static int pick_debounce(void) { return chance(1, 5) ? 0 : chance(1, 8) ? 5 + (int)rn(300) : 1 + (int)rn(5); }
/* raw signals: a mix of levels that stay, bounce around and alternate */
static unsigned next_raw(unsigned raw, unsigned filtered, unsigned sticky, int phase) {
    unsigned flip = (unsigned)rnd() & (unsigned)rnd();
    switch (phase) {
        case 0: return raw;                                    /* hold */
        case 1: return raw ^ flip;                             /* bounce */
        case 2: return ~filtered;                              /* all differ */
        case 3: return filtered;                               /* none differs */
        case 4: return (raw & sticky) | (filtered & ~sticky);  /* some settle back for a moment */
        default: return (unsigned)rnd();
    }
}

static void d01(void) {
    debounce_filter_t *f = mon_guard(sizeof *f);
    model_t           *m = mon_zalloc(sizeof *m);
    int                db = pick_debounce(), n = mon_long(60 + rn(200)) + (db > 6 ? 3 * db : 0), changes = 0, glitches = 0, forced = 0;
    if (chance(1, 3000)) {
        long_run(f, NULL, 0);
        mon_guard_check(f, "filter");
    }
    OP("init, debounce %d", db);
    debounce_filter_init(f);
    if (chance(1, 3)) {
        unsigned w = (unsigned)rbits(32);
        OP("set(%#x)", w);
        debounce_filter_set(f, w);
        set(m, w);
    }
    unsigned raw = (unsigned)rnd(), sticky = (unsigned)rnd();
    int      phase = 0, left = 0;
    for (int k = 0; k < n; k++) {
        if (left-- <= 0) {
            phase  = rn(6);
            left   = rn(db + 3);
            sticky = (unsigned)(rnd() | rnd());
        }
        raw             = next_raw(raw, word(m), sticky, phase);
        unsigned before = word(m), expect = 0;
        if (chance(7, 8)) {
            for (int i = 0; i < NIN; i++) {
                uint32_t r = m->run[i];
                expect |= (unsigned)reading(m, i, raw >> i & 1, db) << i;
                glitches += r > 0 && m->run[i] == 0 && !(expect >> i & 1);
            }
            OP("debounce_filter(%#x)", raw);
            unsigned c = debounce_filter(f, raw, db);
            CHECK((c != 0) == (expect != 0), "change", "levels %#x to %#x, change reported: %#x", before, before ^ expect, c);
        } else {
            int i  = rn(NIN);
            expect = (unsigned)reading(m, i, raw >> i & 1, db) << i;
            unsigned in = (raw >> i & 1) ? (chance(1, 2) ? 1 : chance(1, 2) ? 1u << i : (unsigned)rnd() | 1u << rn(32)) : 0;
            OP("debounce_filter_single(%#x, input %d)", in, i);
            unsigned c = debounce_filter_single(f, in, i, db);
            CHECK((c != 0) == (expect != 0), "change", "input %d: level change expected %d, reported %#x", i, expect != 0, c);
        }
        changes += expect != 0;
        OBS(debounce_value(f));
        CHECK(debounce_value(f) == word(m), "level", "after %d calls the levels are %#x, expected %#x", k + 1, debounce_value(f), word(m));
        int i = rn(NIN + 3);
        CHECK_EQ(debounce_read(f, i), i < NIN ? m->level[i] : -1, "read", "debounce_read");
        if (seldom(1, 40)) {
            unsigned w = chance(1, 3) ? word(m) : (unsigned)rbits(32);
            forced |= !idle(m);
            if (chance(1, 2)) {
                OP("set(%#x)", w);
                debounce_filter_set(f, w);
                set(m, w);
            } else {
                OP("init again");
                debounce_filter_init(f);
                set(m, 0);
            }
            CHECK(debounce_value(f) == word(m), "level", "after forcing the levels are %#x, expected %#x", debounce_value(f), word(m));
        }
        if (idle(m) && chance(1, 6))
            db = pick_debounce();
        mon_state(mon_mix(m->run[k % NIN], mon_mix(m->level[k % NIN], db)));
        mon_guard_check(f, "filter");
    }
    if (changes > 1 && glitches > 1 && forced)
        mon_nontrivial();
}
DRIVER("D01", d01,
       "random bouncing, settling and alternating signals on 32 inputs, debounce 0..304, forced levels in between; non-trivial: levels "
       "changed, glitches were filtered out and levels were forced while some input was counting")

static void d02(void) {
    pulse_filter_t *f = mon_guard(sizeof *f);
    model_t        *m = mon_zalloc(sizeof *m);
    int             db = pick_debounce(), n = mon_long(60 + rn(200)) + (db > 6 ? 3 * db : 0), counts = 0, glitches = 0, clears = 0, others = 0;
    int             high = rn(2);
    unsigned        init = (unsigned)rbits(32);
    if (chance(1, 3000)) {
        long_run(NULL, f, rn(2));
        mon_guard_check(f, "filter");
    }
    OP("init(%s, %#x), debounce %d", high ? "high pulses" : "low pulses", init, db);
    pulse_filter_init(f, high ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE, init);
    set(m, init);
    unsigned raw = (unsigned)rnd(), sticky = (unsigned)rnd();
    int      phase = 0, left = 0;
    for (int k = 0; k < n; k++) {
        if (left-- <= 0) {
            phase  = rn(6);
            left   = rn(db + 3);
            sticky = (unsigned)(rnd() | rnd());
        }
        raw     = next_raw(raw, word(m), sticky, phase);
        int any = 0;
        for (int i = 0; i < NIN; i++) {
            uint32_t r = m->run[i];
            int      c = reading(m, i, raw >> i & 1, db);
            glitches += r > 0 && m->run[i] == 0 && !c;
            if (c && m->level[i] == !high) {
                m->count[i]++;
                any = 1;
            } else
                others += c;
        }
        counts += any;
        OP("pulse_filter(%#x)", raw);
        CHECK_EQ(pulse_filter(f, raw, db), any, "change", "some count went up");
        for (int i = 0; i < NIN; i++) {
            CHECK_EQ(pulse_count(f, i), (int)m->count[i], "count", "count of an input");
            CHECK_EQ(pulse_level(f, i), m->level[i], "level", "filtered level of an input");
        }
        if (chance(1, 8)) {
            int i = chance(1, 2) ? -1 - (int)rn(5) : NIN + (int)rn(5);
            CHECK_EQ(pulse_count(f, i), -1, "range", "count beyond the inputs");
            CHECK_EQ(pulse_level(f, i), -1, "range", "level beyond the inputs");
            pulse_clear(f, i);
        }
        if (seldom(1, 16)) {
            int i = rn(NIN);
            OP("clear(%d)", i);
            pulse_clear(f, i);
            clears += m->count[i] > 0 && m->run[i] > 0;
            m->count[i] = 0;
        }
        if (seldom(1, 60)) {
            high = rn(2);
            init = (unsigned)rbits(32);
            OP("init again (%d, %#x)", high, init);
            pulse_filter_init(f, high ? COUNT_HIGH_PULSE : COUNT_LOW_PULSE, init);
            set(m, init);
            memset(m->count, 0, sizeof m->count);
        }
        if (idle(m) && chance(1, 6))
            db = pick_debounce();
        mon_state(mon_mix(m->run[k % NIN], mon_mix(m->level[k % NIN], mon_mix(m->count[k % NIN], high))));
        mon_guard_check(f, "filter");
    }
    if (counts > 1 && others && glitches)
        mon_nontrivial();
    (void)clears;
}
DRIVER("D02", d02,
       "random bouncing, settling and alternating signals on 32 inputs, both pulse types, clears and re-initialisations in between; "
       "non-trivial: counts went up, levels also changed without counting and glitches were filtered out")
