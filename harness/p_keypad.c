/* K01: event protocol of every key; K02: exact timing. */
#include "mon.h"
#include "keypad/keypad.h"
#include "timer/timecheck.h"
#define MAXK 300
#define HALF ((uint64_t)((timestamp_t)-1) / 2)

typedef struct {
    keypad_key_t *k;
    int           n, *code;
    unsigned long *bits, now;
    int           calm; /* how long inputs stay */
} st_t;
static void setup(st_t *t, uint64_t maxgap) {
    t->n = chance(1, 500) ? 120 + rn(MAXK - 119) : 1 + rn(6);
    t->code = mon_zalloc(t->n * sizeof *t->code);
    t->bits = mon_zalloc(t->n * sizeof *t->bits);
    t->calm = 6 + rn(40);
    t->k = mon_guard((t->n + 1) * sizeof *t->k);
    memset(t->k, 0, (t->n + 1) * sizeof *t->k);
    for (int i = 0; i < t->n; i++) {
    again:
        t->bits[i] = t->n > 6 ? (chance(1, 2) ? 1 + rn(2000) : rnd()) : chance(1, 4) ? 1 + rn(15) : chance(1, 4) ? rbits(8 * sizeof(unsigned long)) : 1ul << rn(8 * sizeof(unsigned long));
        if (!t->bits[i])
            goto again;
        for (int j = 0; j < i; j++)
            if (t->bits[j] == t->bits[i])
                goto again;
        t->code[i] = chance(1, 4) ? (int)rbits(32) : i + 1;
        for (int j = 0; j < i; j++)
            if (t->code[j] == t->code[i])
                goto again;
        keypad_key_t key = KEYPAD_KEY(t->bits[i], t->code[i]);
        t->k[i] = key;
    }
    keypad_key_t nul = KEYPAD_NULL_KEY;
    t->k[t->n] = nul;
    if (chance(1, 2)) {
        OP("reset");
        keypad_reset_keys(t->k);
    }
    /* near the wrap of the counter as often as not */
    t->now = (unsigned long)(timestamp_t)(chance(1, 2) ? 0 - (timestamp_t)rn64(maxgap * 20 + 5) : (timestamp_t)rnd());
    for (int i = 0; i < t->n; i++)
        TR("key %d: pattern %#lx code %d", i, t->bits[i], t->code[i]);
}
static unsigned long input(st_t *t, int *cur) {
    switch (rn(t->calm)) {
        case 0: *cur = -1; break;
        case 1: *cur = rn(t->n); break;
        case 2: return *cur >= 0 ? t->bits[*cur] ^ (1ul << rn(8 * sizeof(unsigned long) - 1)) : rnd(); /* a pattern of no key, or of another */
        default: break;
    }
    return *cur >= 0 ? t->bits[*cur] : 0;
}
static int match(st_t *t, unsigned long in) {
    for (int i = 0; i < t->n; i++)
        if (t->bits[i] == in)
            return i;
    return -1;
}
static const char *ename(int e) {
    static const char *const n[] = {"nothing", "press", "pressing", "click", "longclick", "longpress", "release"};
    return e >= 0 && e < 7 ? n[e] : "?";
}

static void k01(void) {
    st_t *t = mon_zalloc(sizeof *t);
    unsigned long D = 1 + rn(60), click = rn(D), lng = rn(3 * D), per = rn(2 * D);
    setup(t, D);
    TR("click %lu longclick %lu period %lu now %lu", click, lng, per, t->now);
    int active = -1, last = KEY_NOTHING, longs = 0, cur = -1, n = mon_long(80 + rn(300)), seen = 0, switched = 0;
    uint8_t *shown = mon_zalloc(t->n); /* its pattern came since it was last released */
    for (int k = 0; k < n; k++) {
        unsigned long in = input(t, &cur);
        int           m  = match(t, in);
        t->now = (timestamp_t)(t->now + (chance(1, 6) ? rn(3 * D) : rn(3)));
        OP("routine(t=%lu, input=%#lx key %d)", t->now, in, m);
        keypad_update_t u = keypad_routine(t->k, click, lng, per, t->now, in);
        OBS(u.event);
        if (u.event != KEY_NOTHING)
            OBS(u.code);
        if (m >= 0)
            shown[m] = 1;
        TR("  -> %s of code %d", ename(u.event), u.event ? u.code : 0);
        CHECK(u.event >= KEY_NOTHING && u.event <= KEY_RELEASE, "event-value", "event %d", (int)u.event);
        if (u.event == KEY_NOTHING) {
            CHECK(!(m >= 0 && active < 0), "press-missing", "the pattern of key %d is shown, no key is busy, and no press is reported", m);
            goto next;
        }
        int e = -1;
        for (int i = 0; i < t->n; i++)
            if (t->code[i] == u.code)
                e = i;
        CHECK(e >= 0, "code", "event with code %d of no key", u.code);
        CHECK(active < 0 || e == active, "other-key", "%s of key %d while key %d has not been released", ename(u.event), e, active);
        if (u.event == KEY_RELEASE)
            CHECK(m != e, "release-while-held", "release of key %d while its pattern is shown", e);
        else
            CHECK(m == e, "event-while-up", "%s of key %d while its pattern is not shown", ename(u.event), e);
        switch (u.event) {
            case KEY_PRESS:
                CHECK(active < 0 || switched, "press-twice", "second press of key %d although it has been held all the time", e);
                active = e, longs = 0;
                break;
            case KEY_CLICK: CHECK(active == e && last == KEY_PRESS, "click-order", "click of key %d after %s", e, ename(last)); break;
            case KEY_PRESSING:
                CHECK(active == e && (last == KEY_CLICK || last == KEY_PRESSING), "pressing-order", "pressing of key %d after %s", e, ename(last));
                break;
            case KEY_LONGCLICK:
                CHECK(active == e && !longs++, "longclick-order", "long click number %d of key %d", longs, e);
                break;
            case KEY_LONGPRESS: CHECK(active == e && (last == KEY_LONGCLICK || last == KEY_LONGPRESS), "longpress-order", "longpress of key %d after %s", e, ename(last)); break;
            default:
                CHECK(active == e, "release-order", "release of key %d, which was not pressed", e);
                active = -1, shown[e] = 0;
                break;
        }
        last     = u.event;
        switched = 0;
        seen |= 1 << u.event;
    next:
        if (active >= 0 && m != active)
            switched = 1;
        if (active >= 0)
            CHECK_EQ(keypad_get_key_state(&t->k[active]) != 0, m == active, "key-state", "state of the pressed key");
        int other = rn(t->n);
        if (!shown[other])
            CHECK_EQ(keypad_get_key_state(&t->k[other]), 0, "key-state", "state of a key not shown since its release");
        mon_guard_check(t->k, "keys");
        mon_state(mon_mix(last, mon_mix(active < 0 ? 0 : m == active ? 1 : m < 0 ? 2 : 3, longs)));
        if (seldom(1, 100)) {
            OP("reset");
            keypad_reset_keys(t->k);
            active = -1, last = KEY_NOTHING, switched = 0;
            memset(shown, 0, t->n);
        }
    }
    if (seen == 0x7E)
        mon_nontrivial();
}
DRIVER("K01", k01,
       "random inputs (single keys, unknown patterns, direct switches between keys) over 1..6 keys with random durations and time "
       "steps; every event checked against the protocol automaton; non-trivial: all six kinds of event occurred")

static void k02(void) {
    st_t *t = mon_zalloc(sizeof *t);
    uint64_t      S = chance(1, 6) ? (HALF < 1000000000 ? HALF / 4 : 1ull << rn(sizeof(timestamp_t) == 4 ? 29 : 60)) : 2 + rn(60);
    unsigned long click = rn64(S), lng = click + rn64(S + 1), per = rn64(S);
    setup(t, S);
    TR("click %lu longclick %lu period %lu now %lu", click, lng, per, t->now);
    int      state = 0 /* idle, held, let go */, key = -1, last = 0, cur = -1, n = mon_long(80 + rn(300)), seen = 0, wrapped = 0;
    uint64_t since = 0, sinceper = 0; /* time since press (or since let go), since the last click or repeat */
    for (int k = 0; k < n; k++) {
        unsigned long in = input(t, &cur);
        int           m  = match(t, in);
        /* everything being timed stays within half the range */
        uint64_t gap, maxgap = HALF - (state == 0 ? 0 : state == 1 && last == KEY_LONGCLICK ? sinceper : since);
        switch (rn(8)) { /* aim at the instants that matter */
            case 0: gap = click - (since < click ? since : click) + rn(2); break;
            case 1: gap = lng - (since < lng ? since : lng) + rn(2); break;
            case 2: gap = per - (sinceper < per ? sinceper : per) + rn(2); break;
            case 3: gap = rn64(2 * S); break;
            case 4: gap = chance(1, 10) ? maxgap - rn(3) : 0; break;
            default: gap = rn(3); break;
        }
        if (gap > maxgap)
            gap = maxgap;
        unsigned long before = t->now;
        t->now = (timestamp_t)(t->now + gap);
        wrapped |= t->now < before && state;
        since += gap, sinceper += gap;
        int want = KEY_NOTHING, wkey = key;
        if (state == 0) {
            if (m >= 0)
                want = KEY_PRESS, wkey = m;
        } else if (state == 1) {
            if (m == key) {
                if (last == KEY_PRESS && since > click)
                    want = KEY_CLICK;
                else if (last == KEY_CLICK && since > lng)
                    want = KEY_LONGCLICK;
                else if (last != KEY_PRESS && sinceper > per)
                    want = last == KEY_CLICK ? KEY_PRESSING : KEY_LONGPRESS;
            } else if (last == KEY_PRESS)
                want = KEY_RELEASE;
            else
                state = 2, since = 0;
        } else {
            if (m == key)
                want = KEY_PRESS;
            else if (since > click)
                want = KEY_RELEASE;
        }
        OP("routine(t=%lu, input=%#lx key %d)", t->now, in, m);
        keypad_update_t u = keypad_routine(t->k, click, lng, per, t->now, in);
        OBS(u.event);
        TR("  -> %s of code %d", ename(u.event), u.event ? u.code : 0);
        if ((int)u.event != want || (want && u.code != t->code[wkey])) {
            char key_[40];
            snprintf(key_, sizeof key_, "timing-%s", ename(want));
            CHECK(0, key_, "expected %s of key %d, got %s of code %d; %llu since %s, %llu since the last click or repeat (click %lu long %lu period %lu)",
                  ename(want), wkey, ename(u.event), u.code, (unsigned long long)since, state == 2 ? "let go" : "press", (unsigned long long)sinceper, click, lng, per);
        }
        MON->events++;
        switch (want) {
            case KEY_PRESS: state = 1, key = wkey, last = KEY_PRESS, since = sinceper = 0; break;
            case KEY_CLICK: last = KEY_CLICK, sinceper = 0; break;
            case KEY_LONGCLICK: last = KEY_LONGCLICK, sinceper = 0; break;
            case KEY_PRESSING: case KEY_LONGPRESS: sinceper = 0; break;
            case KEY_RELEASE: state = 0, key = -1, last = 0; break;
            default: break;
        }
        seen |= 1 << want;
        mon_state(mon_mix(state, mon_mix(last, mon_mix(since > click, mon_mix(since > lng, sinceper > per)))));
        if (seldom(1, 150)) {
            OP("reset");
            keypad_reset_keys(t->k);
            state = 0, key = -1, last = 0;
        }
    }
    if ((seen & 0x7E) == 0x7E && wrapped)
        mon_nontrivial();
}
DRIVER("K02", k02,
       "as K01 with click <= long click and time steps aimed at the instants where the durations run out, near the wrap of the "
       "counter; every call compared with the timing model; non-trivial: all six kinds of event occurred and the counter wrapped")
