/* S03 H01 H02 H03: weekly schedules. */
#include <stddef.h>
#include "mon.h"
#include "scheduler/scheduler.h"
/* public functions the header does not declare */
int           scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info);
int           scheduler_current_value(scheduler_t *scheduler, struct tm *tm_info, int *value);
int           scheduler_get_next_enabled_entry(scheduler_t *scheduler, size_t start);
int           scheduler_get_first_available_entry(scheduler_t *scheduler);
uint16_t      scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info);
unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler, size_t entry_index, struct tm *tm_info);
unsigned long scheduler_get_current_remaining_duration(scheduler_t *scheduler, struct tm *tm_info);
size_t        scheduler_get_max_schedule_entries(scheduler_t *scheduler);
#define DAY 86400u
#define MAXN 64
#define BIGN 700

/* the model's own entries: as wide as the values stored in them */
typedef struct {
    unsigned enabled, days;
    uint32_t start_second, end_second;
    int      value;
} ent_t;
static scheduler_entry_t lib(ent_t e) {
    scheduler_entry_t l;
    memset(&l, 0, sizeof l);
    l.enabled = (uint8_t)e.enabled, l.days = (uint8_t)e.days, l.start_second = e.start_second, l.end_second = e.end_second, l.value = e.value;
    return l;
}
typedef struct {
    scheduler_t      *s;
    size_t            n;
    ent_t            *e; /* the model's copy */
    uint32_t          pool[12]; /* interesting seconds of this case */
    int               npool;
} st_t;

static uint32_t sec(st_t *t, uint32_t max) {
    uint32_t v;
    switch (rn(5)) {
        case 0: v = rn(25) * 3600; break;
        case 1: v = rn(max + 1); break;
        case 2: v = max - rn(3); break;
        default: v = t->pool[rn(t->npool)], v += rn(3) - 1; break;
    }
    return v > max ? max : v;
}
static int val(void) {
    switch (rn(5)) {
        case 0: return (int)rnd();
        case 1: return -1 - (int)rn(4);
        case 2: return 250 + (int)rn(300);
        default: return (int)rn(6);
    }
}
static ent_t entry(st_t *t, int overnight) {
    ent_t e;
    memset(&e, 0, sizeof e);
    e.enabled = chance(4, 5) ? (chance(3, 4) ? 1 : 1 + rn(255)) : 0;
    e.days    = chance(1, 4) ? 0x7F : chance(1, 5) ? (1u << rn(7)) : (uint8_t)rn(chance(1, 8) ? 256 : 128);
    e.value   = val();
    e.start_second = sec(t, DAY - 1);
    if (overnight && chance(1, 3)) {
        e.end_second = DAY + rn(chance(1, 2) ? 3 : e.start_second + 1); /* at most 24 hours */
        if (e.end_second > e.start_second + DAY)
            e.end_second = e.start_second + DAY;
        e.days = chance(3, 4) ? 0x7F : e.days;
    } else if (chance(1, 12))
        e.end_second = sec(t, e.start_second); /* empty interval */
    else {
        e.end_second = sec(t, DAY);
        if (e.end_second <= e.start_second)
            e.end_second = e.start_second + 1 + rn(DAY - e.start_second);
    }
    return e;
}
static void start(st_t *t) {
    t->npool = 12;
    for (int i = 0; i < 12; i++)
        t->pool[i] = rn(DAY);
    t->s = mon_guard(sizeof *t->s);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    t->n = chance(1, 300) ? chance(1, 40) ? 65536 + rn(300) : 200 + rn(BIGN - 200) : 1 + rn(chance(1, 3) ? 30 : 8);
    t->e = mon_zalloc(t->n * sizeof *t->e);
    OP("init(%zu entries)", t->n);
    ALLOCATES(scheduler_init(t->s, t->n));
#else
    t->n = GEL_SCHEDULER_MAX_ENTRIES;
    t->e = mon_zalloc(t->n * sizeof *t->e);
    OP("init(%zu entries)", t->n);
    scheduler_init(t->s);
#endif
}
static void end(st_t *t) {
    mon_guard_check(t->s, "scheduler object");
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    mon_guard_check(t->s->entries, "scheduler entries");
#endif
}
static int same_entry(const scheduler_entry_t *a, const ent_t *b) {
    return a->enabled == b->enabled && a->days == b->days && a->start_second == b->start_second && a->end_second == b->end_second && a->value == b->value;
}
static void store(st_t *t, size_t i, ent_t e) {
    TR("entry %zu: enabled=%u days=%#x start=%u end=%u value=%d", i, e.enabled, e.days, e.start_second, e.end_second, e.value);
    if (chance(3, 4)) {
        OP("set_entry(%zu)", i);
        CHECK_EQ(scheduler_set_entry(t->s, i, lib(e)), 0, "set-result", "set_entry");
    } else {
        OP("get_entry_mut(%zu)", i);
        scheduler_entry_t *p = scheduler_get_entry_mut(t->s, i);
        CHECK(p != NULL, "get-null", "get_entry_mut of a valid index returned NULL");
        *p = lib(e);
    }
    t->e[i] = e;
}
static void store_any(st_t *t) {
    ent_t e = entry(t, 1);
    store(t, rn(t->n), e);
}
static int nd(uint8_t days) { return __builtin_popcount(days & 0x7F); }
static uint64_t weekly(const ent_t *e) {
    uint64_t d = e->start_second < e->end_second ? e->end_second - e->start_second : e->start_second - e->end_second;
    return d * nd(e->days);
}
static int active(const ent_t *e, int wday, uint32_t now) {
    if (!e->enabled || !(e->days >> wday & 1) || e->end_second <= e->start_second)
        return 0;
    return (now >= e->start_second && now < e->end_second) || (e->end_second > DAY && now + DAY < e->end_second);
}
/* The tail of an interval past midnight belongs to the next day; which weekday's bit governs it is not
   documented, so instants inside the tail of an entry that does not list all days are not judged. */
static int unclear(st_t *t, uint32_t now) {
    for (size_t i = 0; i < t->n; i++)
        if (t->e[i].enabled && t->e[i].end_second > DAY && now + DAY < t->e[i].end_second && nd(t->e[i].days) != 7)
            return 1;
    return 0;
}
static void instant(st_t *t, struct tm *tm, uint32_t *now, int *wday) {
    memset(tm, 0, sizeof *tm);
    tm->tm_year = rn(200), tm->tm_yday = rn(366), tm->tm_mon = rn(12), tm->tm_mday = 1 + rn(28), tm->tm_isdst = rn(2);
    for (int tries = 0; tries < 20; tries++) {
        *wday = rn(7);
        ent_t *e = &t->e[rn(t->n)];
        switch (rn(6)) {
            case 0: *now = rn(DAY); break;
            case 1: *now = e->start_second; break;
            case 2: *now = e->end_second; break;
            case 3: *now = e->end_second - 1; break;
            case 4: *now = e->start_second - 1; break;
            default: *now = chance(1, 2) ? 0 : DAY - 1; break;
        }
        *now %= DAY;
        if (!unclear(t, *now))
            break;
        *now = DAY - 1;
    }
    tm->tm_wday = *wday;
    tm->tm_hour = *now / 3600, tm->tm_min = *now / 60 % 60, tm->tm_sec = *now % 60;
}
/* asking leaves the caller's time as it was */
static void asked(const struct tm *tm, const struct tm *before) {
    CHECK(!memcmp(tm, before, sizeof *tm), "time-modified", "a query changed the time it was given");
}
static int pick(st_t *t, int wday, uint32_t now, int got, const char *key) {
    int      nact = 0;
    uint64_t best = UINT64_MAX;
    int      bestv = 0;
    for (size_t i = 0; i < t->n; i++)
        if (active(&t->e[i], wday, now)) {
            uint64_t w = weekly(&t->e[i]);
            if (!nact || w < best || (w == best && t->e[i].value > bestv))
                best = w, bestv = t->e[i].value;
            nact++;
        }
    OBS(got);
    if (nact == 0)
        CHECK(got == -1, key, "wday %d second %u: entry %d reported although none is active", wday, now, got);
    else {
        CHECK(got >= 0 && got < (int)t->n, key, "wday %d second %u: %d reported although %d entries are active", wday, now, got, nact);
        CHECK(active(&t->e[got], wday, now), key, "wday %d second %u: reported entry %d is not active", wday, now, got);
        CHECK(weekly(&t->e[got]) == best, key, "wday %d second %u: entry %d covers %llu seconds a week, another active one %llu", wday, now, got,
              (unsigned long long)weekly(&t->e[got]), (unsigned long long)best);
        CHECK(t->e[got].value == bestv, key, "wday %d second %u: entry %d has value %d, an equally short one %d", wday, now, got, t->e[got].value, bestv);
    }
    return nact;
}
static void fillup(st_t *t, int overnight) {
    for (size_t i = 0; i < t->n; i++) {
        if (chance(1, 8))
            continue;
        ent_t e = entry(t, overnight);
        if (i && chance(1, 3)) { /* ties: same weekly duration, other place or value */
            ent_t             o = t->e[rn(i)];
            int               v = val();
            e       = o;
            unsigned          far = 1u << rn(20);
            far *= chance(1, 2) ? 1u : 256u;
            e.value = chance(1, 2) ? v : (int)((unsigned)o.value + far);
            if (chance(1, 3) && o.end_second + 1 < DAY && o.end_second > o.start_second)
                e.start_second++, e.end_second++;
        }
        store(t, i, e);
    }
}
static void h01(void) {
    st_t *t = mon_zalloc(sizeof *t);
    start(t);
    int multi = 0, none = 0;
    for (int round = 0; round < 3; round++) {
        if (round == 0 || chance(1, 2))
            fillup(t, 1);
        else
            store_any(t);
        for (int q = 0; q < 16; q++) {
            struct tm tm;
            uint32_t  now;
            int       wday;
            instant(t, &tm, &now, &wday);
            if (unclear(t, now))
                continue;
            OP("active entry at wday %d second %u", wday, now);
            struct tm was = tm;
            int       n   = pick(t, wday, now, scheduler_get_active_entry_number(t->s, &tm), "active-entry");
            asked(&tm, &was);
            multi += n > 1;
            none += n == 0;
            mon_state(mon_mix(now / 900, n));
        }
    }
    end(t);
    if (multi && none)
        mon_nontrivial();
}
DRIVER("H01", h01,
       "random schedules (overnight, empty, disabled, tied entries) queried at random instants and at the entries' own edges; "
       "non-trivial: some instant had several active entries and some had none")

static void entries_same(st_t *t) {
    for (size_t i = 0; i < t->n; i++) {
        const scheduler_entry_t *e = scheduler_get_entry(t->s, i);
        CHECK(e != NULL && same_entry(e, &t->e[i]), "stored-entry", "entry %zu is not what was stored", i);
    }
}
static void h02(void) {
    st_t *t = mon_zalloc(sizeof *t);
    start(t);
    entries_same(t);
    CHECK_EQ(scheduler_get_max_schedule_entries(t->s), t->n, "max-entries", "number of entries");
    int tails = 0, multi = 0;
    for (int round = 0; round < 4; round++) {
        if (round == 0)
            fillup(t, 1);
        else
            store_any(t);
        if (chance(1, 3)) {
            size_t i = rn(t->n);
            OP("disable(%zu)", i);
            CHECK_EQ(scheduler_disable_schedule_entry(t->s, i), 0, "disable-result", "disable");
            t->e[i].enabled = 0;
        }
        if (chance(1, 6)) { /* a table with hardly a free place, or none */
            size_t upto = chance(1, 3) ? t->n : rn(t->n + 1);
            for (size_t i = 0; i < t->n; i++)
                if ((t->e[i].enabled != 0) != (i < upto)) {
                    ent_t e   = t->e[i];
                    e.enabled = i < upto;
                    store(t, i, e);
                }
        }
        if (chance(1, 2)) {
            size_t                   i = rn(t->n);
            const scheduler_entry_t *e = scheduler_get_entry(t->s, i);
            OP("duration of entry %zu", i);
            if (t->e[i].start_second <= t->e[i].end_second)
                CHECK_EQ(scheduler_get_entry_duration(e), t->e[i].end_second - t->e[i].start_second, "duration", "duration of an entry");
            else
                OBS((uint32_t)scheduler_get_entry_duration(e)); /* not judged, but must not depend on the build */
            CHECK_EQ(scheduler_get_entry_duration(NULL), 0, "duration", "duration of no entry");
        }
        size_t beyond = t->n + (chance(1, 2) ? 0 : rskew(SIZE_MAX - t->n));
        OP("access beyond the table (%zu)", beyond);
        CHECK(scheduler_get_entry(t->s, beyond) == NULL, "beyond", "entry %zu of %zu was returned", beyond, t->n);
        CHECK(scheduler_get_entry_mut(t->s, beyond) == NULL, "beyond", "entry %zu of %zu was returned", beyond, t->n);
        CHECK(scheduler_set_entry(t->s, beyond, lib(entry(t, 1))) == -1, "beyond", "entry %zu of %zu was set", beyond, t->n);
        OBS(scheduler_is_schedule_entry_enabled(t->s, beyond)); /* must not look beyond the table */
        CHECK(scheduler_disable_schedule_entry(t->s, beyond) == -1, "beyond", "entry %zu of %zu was disabled", beyond, t->n);
        entries_same(t);
        int fe = -1;
        for (size_t i = 0; i < t->n; i++) {
            CHECK_EQ(scheduler_is_schedule_entry_enabled(t->s, i) != 0, t->e[i].enabled != 0, "enabled", "is_schedule_entry_enabled");
            if (!t->e[i].enabled && fe < 0)
                fe = (int)i;
        }
        CHECK_EQ(scheduler_get_first_available_entry(t->s), fe, "first-free", "first available entry");
        for (int k = 0; k < 3; k++) {
            size_t from = rn(t->n + 3);
            int    ne = -1;
            for (size_t i = from; i < t->n && ne < 0; i++)
                if (t->e[i].enabled)
                    ne = (int)i;
            CHECK_EQ(scheduler_get_next_enabled_entry(t->s, from), ne, "next-enabled", "next enabled entry");
        }
        for (int q = 0; q < 12; q++) {
            struct tm tm;
            uint32_t  now;
            int       wday, v = 12345678;
            instant(t, &tm, &now, &wday);
            if (unclear(t, now))
                continue;
            OP("queries at wday %d second %u", wday, now);
            struct tm was = tm;
            int got = scheduler_get_active_entry_number(t->s, &tm);
            int n   = pick(t, wday, now, got, "active-entry");
            multi += n > 1;
            CHECK_EQ(scheduler_is_active(t->s, &tm) != 0, n > 0, "is-active", "is_active");
            int wanted = !chance(1, 8);
            CHECK_EQ(scheduler_current_value(t->s, &tm, wanted ? &v : NULL) != 0, n > 0, "value-result", "current_value reported one");
            if (n > 0 && wanted)
                CHECK_EQ(v, t->e[got].value, "value", "current value");
            else
                CHECK_EQ(v, 12345678, "value-written", "value after no entry is active");
            unsigned map = 0;
            for (size_t i = 0; i < t->n; i++) {
                int a = active(&t->e[i], wday, now);
                if (i < 16)
                    map |= (unsigned)a << i;
                unsigned long want = !a ? 0 : now >= t->e[i].start_second ? t->e[i].end_second - now : t->e[i].end_second - DAY - now;
                tails += a && now < t->e[i].start_second;
                CHECK_EQ(scheduler_get_schedule_remaining_duration(t->s, i, &tm), want, "remaining", "remaining duration of an entry");
                if (n > 0 && (int)i == got)
                    CHECK_EQ(scheduler_get_current_remaining_duration(t->s, &tm), want, "current-remaining", "remaining duration of the active entry");
            }
            if (n == 0)
                CHECK_EQ(scheduler_get_current_remaining_duration(t->s, &tm), 0, "current-remaining", "remaining duration with no active entry");
            CHECK_EQ(scheduler_get_schedule_remaining_duration(t->s, beyond, &tm), 0, "remaining", "remaining duration beyond the table");
            CHECK_EQ(scheduler_get_active_entries_map(t->s, &tm), map, "map", "map of active entries");
            asked(&tm, &was);
            mon_state(map);
        }
        entries_same(t);
    }
    end(t);
    if (tails && multi)
        mon_nontrivial();
}
DRIVER("H02", h02,
       "random schedules; at random and edge instants every query is compared with the model, and entry access, enabling and "
       "searches after random changes; non-trivial: an entry was active past midnight and some instant had several")

static void h03(void) {
    st_t *t = mon_zalloc(sizeof *t);
    start(t);
    int hits = 0, misses = 0;
    for (int round = 0; round < 3; round++) {
        for (size_t i = 0; i < t->n; i++) {
            ent_t e = entry(t, 0);
            if (e.end_second <= e.start_second)
                e.enabled = 0;
            if (chance(1, 2))
                e.enabled = chance(1, 4);
            if (e.end_second <= e.start_second)
                e.enabled = 0;
            store(t, i, e);
        }
        for (int q = 0; q < 8; q++) {
            ent_t c;
            do
                c = entry(t, 0);
            while (c.end_second <= c.start_second);
            if (chance(1, 2)) { /* aim at the relations between two intervals */
                ent_t *o = &t->e[rn(t->n)];
                if (o->end_second > o->start_second) {
                    uint32_t a = o->start_second, b = o->end_second, m = a + rn(b - a);
                    switch (rn(8)) {
                        case 0: c.start_second = a, c.end_second = b; break;
                        case 1: c.start_second = m, c.end_second = b + rn(DAY - b + 1); break;
                        case 2: c.start_second = rn(a + 1), c.end_second = m; break;
                        case 3: c.start_second = m, c.end_second = m + rn(b - m) + 1; break;
                        case 4: c.start_second = rn(a + 1), c.end_second = b + rn(DAY - b + 1); break;
                        case 5: c.start_second = b, c.end_second = b + rn(DAY - b + 1); break;
                        case 6: c.start_second = b + 1, c.end_second = b + 1 + rn(DAY - b + 1); break;
                        default: c.end_second = a ? a - rn(2) : 0, c.start_second = rn(a + 1); break;
                    }
                    if (chance(1, 2))
                        c.days = chance(1, 2) ? o->days : 1u << rn(7);
                }
                if (c.end_second > DAY)
                    c.end_second = DAY;
                if (c.end_second <= c.start_second)
                    continue;
            }
            size_t own = t->n; /* the candidate may be an entry of the table itself: it clashes with itself */
            if (chance(1, 6)) {
                size_t k = rn(t->n);
                if (t->e[k].end_second > t->e[k].start_second && t->e[k].end_second <= DAY)
                    c = t->e[own = k];
            }
            c.days &= 0x7F;
            int lo = 0, hi = 0;
            for (size_t i = 0; i < t->n; i++) {
                ent_t *o = &t->e[i];
                if (!o->enabled || !(o->days & c.days))
                    continue;
                /* sharing an instant clashes; merely touching is left open */
                lo += o->start_second < c.end_second && c.start_second < o->end_second;
                hi += o->start_second <= c.end_second && c.start_second <= o->end_second;
            }
            OP("overlapping(days=%#x start=%u end=%u)", c.days, c.start_second, c.end_second);
            scheduler_entry_t cand = lib(c);
            int got = (int)scheduler_are_there_overlapping_entries(t->s, own < t->n && t->e[own].days == c.days ? scheduler_get_entry(t->s, own) : &cand);
            OBS(got);
            CHECK(got >= lo, "missed-overlap", "%d overlapping entries reported, %d share a weekday and an instant", got, lo);
            CHECK(got <= hi, "false-overlap", "%d overlapping entries reported, only %d share a weekday and at least touch", got, hi);
            hits += lo > 0;
            misses += hi == 0;
            mon_state(mon_mix(lo, hi));
        }
        for (size_t i = 0; i < t->n; i++) {
            const scheduler_entry_t *e = scheduler_get_entry(t->s, i);
            CHECK(e != NULL && same_entry(e, &t->e[i]), "entry-changed", "the query changed entry %zu", i);
        }
    }
    end(t);
    if (hits && misses)
        mon_nontrivial();
}
DRIVER("H03", h03,
       "random tables of same-day entries and candidates aimed at every relation of two intervals (inside, around, partial, "
       "touching, one second apart); non-trivial: some candidate overlapped and some did not")

static void s03(void) {
    st_t *t = mon_zalloc(sizeof *t);
    int   big = 0;
    for (int k = 0; k < 12; k++) {
        scheduler_entry_t *e = mon_guard(sizeof *e);
        ent_t in;
        in.enabled = (uint8_t)rbits(8), in.days = (uint8_t)rbits(8), in.start_second = (uint32_t)rbits(32), in.end_second = (uint32_t)rbits(32);
        in.value = chance(1, 2) ? (int)rn(256) : (int)rbits(32);
        *e = lib(in);
        uint8_t          *b = mon_guard(11), want[11];
        OP("serialize enabled=%u days=%u start=%u end=%u value=%d", e->enabled, e->days, e->start_second, e->end_second, e->value);
        CHECK_EQ(scheduler_entry_serialize(b, e), 11, "size", "bytes written");
        want[0] = in.enabled, want[1] = in.days;
        for (int i = 0; i < 4; i++)
            want[2 + i] = (uint8_t)(in.start_second >> 8 * i), want[6 + i] = (uint8_t)(in.end_second >> 8 * i);
        want[10] = (uint8_t)in.value;
        for (int i = 0; i < 11; i++)
            CHECK(b[i] == want[i], "layout", "byte %d is %02x, expected %02x", i, b[i], want[i]);
        CHECK(same_entry(e, &in), "source-modified", "serializing modified the entry");
        scheduler_entry_t *o = mon_guard(sizeof *o);
        OP("deserialize");
        CHECK_EQ(scheduler_entry_deserialize(o, b), 11, "size", "bytes consumed");
        in.value &= 0xFF;
        CHECK(same_entry(o, &in), "round-trip", "decoded entry differs: enabled=%u days=%u start=%u end=%u value=%d", o->enabled, o->days,
              o->start_second, o->end_second, o->value);
        OBS(o->start_second), OBS(o->end_second), OBS(o->value), OBS(o->days), OBS(o->enabled);
        /* any 11 bytes */
        uint8_t raw[11];
        for (int i = 0; i < 11; i++)
            raw[i] = b[i] = (uint8_t)rbits(8);
        OP("deserialize random bytes and serialize again");
        CHECK_EQ(scheduler_entry_deserialize(o, b), 11, "size", "bytes consumed");
        CHECK(!memcmp(b, raw, 11), "source-modified", "decoding modified the bytes");
        memset(b, 0x77, 11);
        CHECK_EQ(scheduler_entry_serialize(b, o), 11, "size", "bytes written");
        CHECK(!memcmp(b, raw, 11), "reencode", "decoding and encoding again changed the bytes");
        big += raw[5] > 127 && raw[9] > 127;
        mon_guard_free(b, "encoded entry");
        mon_guard_free(o, "decoded entry");
        mon_guard_free(e, "entry");
    }
    (void)t;
    if (big)
        mon_nontrivial();
}
DRIVER("S03", s03,
       "random entries encoded, compared byte by byte, decoded; random bytes decoded and encoded; non-trivial: both 32 bit fields "
       "had their top bit set")
