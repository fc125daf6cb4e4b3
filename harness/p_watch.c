/* V01, V02: watchers against copies of the watched memory. */
#include "mon.h"
#include "data_structures/watcher.h"
#include "timer/timecheck.h"
#if defined(GEL_MALLOC_AVAILABLE) && GEL_MALLOC_AVAILABLE
#define INIT(w) ALLOCATES(watcher_list_init(w))
#else
#define INIT(w) watcher_list_init(w)
#endif
void watcher_trigger_all_cb(watcher_t *list); /* not in the header */
#define MAXW 280
#define HALF ((uint64_t)((timestamp_t)-1) / 2)

typedef struct {
    watcher_t *w;
    int        n;
    uint8_t   *arena;
    size_t     asz;
    struct {
        uint8_t *mem, *old;
        size_t   size;
        void    *data;
        uint64_t delay, quiet; /* time since the last detected change */
        int      pending, calls, want;
    } *m;
    int bad;
} st_t;
static void cb(void *mem, void *data) {
    st_t *s = MON->user;
    int   hit = -1;
    for (int i = 0; i < s->n; i++) /* locations may overlap, so both address and pointer identify */
        if (s->m[i].mem == mem && s->m[i].data == data)
            hit = i;
    TR("  callback of location %d", hit);
    if (hit < 0)
        s->bad = 1;
    else
        s->m[hit].calls++;
}
static int differs(st_t *s, int i) { return memcmp(s->m[i].mem, s->m[i].old, s->m[i].size) != 0; }
static void verify(st_t *s, const char *what) {
    CHECK(!s->bad, "callback-arguments", "%s: a callback received an address and pointer of no location", what);
    for (int i = 0; i < s->n; i++) {
        OBS(s->m[i].calls);
        CHECK(s->m[i].calls == s->m[i].want, s->m[i].calls > s->m[i].want ? "callback-extra" : "callback-missing",
              "%s: callback of location %d (%zu bytes, delay %llu, %llu since the last change) ran %d times, expected %d", what, i, s->m[i].size,
              (unsigned long long)s->m[i].delay, (unsigned long long)s->m[i].quiet, s->m[i].calls, s->m[i].want);
        s->m[i].calls = s->m[i].want = 0;
    }
    mon_guard_check(s->w, "watcher list");
    mon_guard_check(s->arena, "watched memory");
}
static void change(st_t *s) {
    int      i = rn(s->n);
    uint8_t *p = s->m[i].mem;
    size_t   z = s->m[i].size;
    switch (rn(6)) {
        case 0: p[z - 1] ^= 1u << rn(8); break;
        case 1: p[0] ^= 1u << rn(8); break;
        case 2: p[rn(z)] += 1 + rn(255); break;
        case 3: /* back to the content last seen */
            memcpy(p, s->m[i].old, z);
            break;
        case 4: s->arena[rn(s->asz)] ^= 1u << rn(8); break; /* possibly watched by nobody */
        default:
            for (size_t k = 0; k < z; k++)
                p[k] = (uint8_t)rnd();
            break;
    }
    TR("change location %d", i);
}
static void watch(int delayed, int property) {
    st_t *s   = mon_zalloc(sizeof *s);
    MON->user = s;
#if GEL_MALLOC_AVAILABLE
    size_t maxsz = chance(1, 60) ? 66500 : 700; /* rarely more than 16 bits can count */
#else
    size_t maxsz = GEL_STATIC_BLOCK_SIZE;
#endif
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
    maxsz = maxsz > 255 ? 255 : maxsz;
#endif
    s->n     = maxsz > 1000 ? 1 + rn(3) : chance(1, 600) ? 250 + rn(MAXW - 249) : 1 + rn(10);
    s->m     = mon_zalloc(s->n * sizeof *s->m);
    s->asz   = maxsz + rn(64);
    s->arena = mon_guard(s->asz);
    for (size_t k = 0; k < s->asz; k++)
        s->arena[k] = (uint8_t)rnd();
    uint64_t S = delayed && chance(1, 6) ? HALF : 1 + rn(40), maxdelay = HALF;
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
    if (maxdelay > 65535)
        maxdelay = 65535;
#endif
    s->w = mon_guard((s->n + 1) * sizeof *s->w);
    for (int i = 0; i < s->n; i++) {
        size_t z = s->m[i].size = chance(1, 3) ? maxsz - rn(3) % maxsz : chance(1, 3) ? 1 : 1 + rn(maxsz);
        s->m[i].mem   = s->arena + rn(s->asz - z + 1);
        s->m[i].old   = mon_zalloc(z);
        s->m[i].data  = chance(1, 10) ? NULL : (char *)s + i;
        for (int j = 0; j < i; j++)
            if (s->m[j].mem == s->m[i].mem && s->m[j].data == s->m[i].data)
                s->m[i].data = (char *)s + i;
        s->m[i].delay = !delayed || chance(1, 5) ? 0 : chance(1, 8) ? maxdelay - rn(3) : rnd() % (S + 1);
        if (s->m[i].delay > maxdelay)
            s->m[i].delay = maxdelay;
        typedef struct { uint8_t b[16]; } blk_t;
        if (!s->m[i].delay && z == 1 && chance(1, 2))
            s->w[i] = WATCHER(s->m[i].mem, cb, s->m[i].data);
        else if (s->m[i].delay && z == 16 && chance(1, 2))
            s->w[i] = WATCHER_DELAYED((blk_t *)s->m[i].mem, cb, s->m[i].data, s->m[i].delay);
        else if (!s->m[i].delay)
            s->w[i] = WATCHER_ARRAY(s->m[i].mem, z, cb, s->m[i].data);
        else if (z % 4 == 0 && chance(1, 2)) {
            typedef struct { uint8_t b[4]; } quad_t;
            s->w[i] = WATCHER_DELAYED_ARRAY((quad_t *)s->m[i].mem, z / 4, cb, s->m[i].data, s->m[i].delay);
        } else
            s->w[i] = WATCHER_DELAYED_ARRAY(s->m[i].mem, z, cb, s->m[i].data, s->m[i].delay);
        TR("location %d: offset %td size %zu delay %llu", i, s->m[i].mem - s->arena, z, (unsigned long long)s->m[i].delay);
    }
    s->w[s->n] = WATCHER_NULL;
    OP("list_init");
    INIT(s->w);
    for (int i = 0; i < s->n; i++)
        memcpy(s->m[i].old, s->m[i].mem, s->m[i].size);
    verify(s, "init");
    unsigned long now = (unsigned long)(timestamp_t)(chance(1, 2) ? (timestamp_t)0 - (timestamp_t)rn(S > 1000 ? 1000 : S * 8) : (timestamp_t)rnd());
#ifdef GEL_MALLOC_AVAILABLE
    int most = 20000; /* initialising takes memory */
#else
    int most = 1 << 20;
#endif
    int           n = s->n > 10 ? 40 : mon_long(40 + rn(120)), reported = 0, late = 0, restarted = 0, cancelled = 0, wraps = 0, cleared = 0;
    n = n > most ? most : n;
    for (int k = 0; k < n; k++) {
        int nc = chance(1, 2) ? 0 : chance(3, 4) ? 1 : rn(4);
        while (nc-- > 0)
            change(s);
        int any = 0;
        for (int i = 0; i < s->n; i++)
            any |= differs(s, i);
        switch (rn(10)) {
            case 0: case 1:
                OP("check_for_changes");
                CHECK_EQ(watcher_check_for_changes(s->w), any, "check", "check_for_changes");
                verify(s, "check_for_changes");
                break;
            case 2:
                if (!seldom(1, 3))
                    break;
                OP("clear_changes(%lu)", now);
                watcher_clear_changes(s->w, now);
                for (int i = 0; i < s->n; i++) {
                    cleared |= differs(s, i);
                    cancelled |= s->m[i].pending;
                    s->m[i].pending = 0;
                    memcpy(s->m[i].old, s->m[i].mem, s->m[i].size);
                }
                verify(s, "clear_changes");
                break;
            case 3: {
                if (!chance(1, 2))
                    break;
                int i = rn(s->n), which = rn(3);
                OP("trigger %s", which == 0 ? "one" : "all");
                if (which == 0) {
                    watcher_trigger_cb(s->w, i);
                    s->m[i].want = 1;
                } else {
                    which == 1 ? watcher_trigger_all(s->w) : watcher_trigger_all_cb(s->w);
                    for (i = 0; i < s->n; i++)
                        s->m[i].want = 1;
                }
                verify(s, "trigger");
                break;
            }
            default: {
                uint64_t gap = 0;
                int      i   = rn(s->n);
                switch (rn(5)) {
                    case 0: gap = s->m[i].pending && s->m[i].delay > s->m[i].quiet ? s->m[i].delay - s->m[i].quiet : 0; break;
                    case 1: gap = s->m[i].pending && s->m[i].delay > s->m[i].quiet ? s->m[i].delay - s->m[i].quiet - 1 : 1; break;
                    case 2: gap = rnd() % (S + 1); break;
                    case 3: gap = chance(1, 20) ? HALF : rn(3); break;
                    default: gap = rn(3); break;
                }
                for (i = 0; i < s->n; i++) { /* everything being timed stays within half the range of its end */
                    if (s->m[i].pending) {
                        uint64_t room = HALF - s->m[i].quiet;
                        gap = gap > room ? room : gap;
                    }
                }
                unsigned long before = now;
                now = (timestamp_t)(now + gap);
                for (i = 0; i < s->n; i++)
                    s->m[i].quiet += gap;
                for (i = 0; i < s->n; i++) {
                    if (differs(s, i)) {
                        if (s->m[i].delay) {
                            restarted |= s->m[i].pending;
                            s->m[i].pending = 1, s->m[i].quiet = 0;
                        } else
                            s->m[i].want = 1, reported++;
                        memcpy(s->m[i].old, s->m[i].mem, s->m[i].size);
                    } else if (s->m[i].pending && s->m[i].quiet >= s->m[i].delay) {
                        s->m[i].pending = 0, s->m[i].want = 1;
                        late++;
                        wraps |= now < s->m[i].quiet;
                    }
                }
                OP("process_changes(%lu, after %lu)", now, before);
                CHECK_EQ(watcher_process_changes(s->w, now), any, "process-result", "process_changes");
                verify(s, "process_changes");
                break;
            }
        }
        uint64_t h = 5;
        for (int i = 0; i < s->n && i < 4; i++)
            h = mon_mix(h, s->m[i].pending * 4 + (s->m[i].quiet >= s->m[i].delay) * 2 + differs(s, i));
        mon_state(h);
    }
    if (property == 2 ? (late && restarted && cancelled) : (reported > 1 && cleared))
        mon_nontrivial();
    (void)wraps;
}
/* Callbacks that change other watched locations: such a change is reported by the call that is running or by the
   next one, once. */
typedef struct {
    int n, calls[12], mods[12], owed[12], arm[12], delay[12], bad, fired;
    size_t   size[12];
    uint8_t *mem[12];
} ring_t;
static void bump(ring_t *r, int k) {
    r->mem[k][rn(2) ? 0 : r->size[k] - 1]++;
    r->mods[k]++, r->owed[k] = 1;
}
static void ring_cb(void *mem, void *data) {
    ring_t *r = MON->user;
    int     j = (int)((int *)data - r->calls);
    if (j < 0 || j >= r->n || mem != r->mem[j]) {
        r->bad = 1;
        return;
    }
    TR("  callback of location %d", j);
    r->calls[j]++, r->owed[j] = 0;
    if (r->arm[j] >= 0) {
        TR("  it changes location %d", r->arm[j]);
        bump(r, r->arm[j]);
        r->arm[j] = -1, r->fired++;
    }
}
static int ring_process(ring_t *r, watcher_t *w, unsigned long now, int want, const char *what) {
    int before = 0, after = 0;
    for (int i = 0; i < r->n; i++)
        before += r->calls[i];
    OP("%s: process_changes(%lu)", what, now);
    int res = watcher_process_changes(w, now) != 0;
    for (int i = 0; i < r->n; i++) {
        after += r->calls[i];
        CHECK(r->calls[i] <= r->mods[i], "callback-extra", "%s: location %d changed %d times and its callback ran %d times", what, i, r->mods[i], r->calls[i]);
        OBS(r->calls[i]);
    }
    CHECK(!r->bad, "callback-arguments", "%s: a callback received an address and pointer of no location", what);
    if (want >= 0)
        CHECK_EQ(res, want, "process-result", what);
    return after - before;
}
static void ring(void) {
    ring_t *r = mon_zalloc(sizeof *r);
    MON->user = r;
    r->n      = 2 + rn(9);
    watcher_t *w = mon_guard((r->n + 1) * sizeof *w);
    for (int i = 0; i < r->n; i++) {
        size_t z = r->size[i] = 1 + rn(GEL_MALLOC_AVAILABLE ? 30 : GEL_STATIC_BLOCK_SIZE < 30 ? GEL_STATIC_BLOCK_SIZE : 30);
        r->mem[i]   = mon_guard(z);
        r->delay[i] = chance(1, 4) ? 1 + (int)rn(20) : 0;
        r->arm[i]   = -1;
        memset(r->mem[i], 0, z);
        if (r->delay[i])
            w[i] = WATCHER_DELAYED_ARRAY(r->mem[i], z, ring_cb, &r->calls[i], r->delay[i]);
        else
            w[i] = WATCHER_ARRAY(r->mem[i], z, ring_cb, &r->calls[i]);
    }
    w[r->n] = WATCHER_NULL;
    OP("list_init(%d locations)", r->n);
    INIT(w);
    unsigned long now = (timestamp_t)rnd();
    int cascades = 0;
    for (int k = 0; k < 6; k++) {
        int started = 0, direct[12] = {0};
        memset(r->calls, 0, sizeof r->calls), memset(r->mods, 0, sizeof r->mods), r->fired = 0;
        for (int i = 0; i < r->n; i++) {
            if (chance(1, 3))
                bump(r, i), direct[i] = 1, started = 1;
            r->arm[i] = -1;
            if (!r->delay[i] && chance(1, 2))
                r->arm[i] = (i + 1 + rn(r->n - 1)) % r->n;
            TR("location %d: size %zu delay %d changed %d arms %d", i, r->size[i], r->delay[i], direct[i], r->arm[i]);
        }
        ring_process(r, w, now, started, "changes");
        for (int i = 0; i < r->n; i++) {
            if (direct[i] && !r->delay[i])
                CHECK(r->calls[i] > 0, "callback-missing", "location %d changed before the call and its callback did not run", i);
            if (r->delay[i])
                CHECK(r->calls[i] == 0, "early", "callback of location %d ran before its delay of %d", i, r->delay[i]);
        }
        cascades += r->fired;
        int more = 1;
        for (int pass = 0; pass < 14 && more; pass++) /* callbacks run late may change something in turn */
            more = ring_process(r, w, now, -1, "changes made by callbacks");
        CHECK(!more, "endless", "callbacks still run although nothing changes");
        ring_process(r, w, now, 0, "nothing changes");
        for (int i = 0; i < r->n; i++)
            if (!r->delay[i])
                CHECK(!r->owed[i], "callback-missing", "a change that a callback made to location %d was never reported", i);
            else
                CHECK(r->calls[i] == 0, "early", "callback of location %d ran before its delay of %d", i, r->delay[i]);
        now = (timestamp_t)(now + 20);
        ring_process(r, w, now, 0, "delays pass");
        for (int i = 0; i < r->n; i++) {
            CHECK(!r->owed[i], "callback-missing", "a change of delayed location %d was never reported", i);
            if (r->delay[i])
                CHECK_EQ(r->calls[i], r->mods[i] > 0, "callback-count", "callback of a delayed location");
        }
        now = (timestamp_t)(now + rn(30));
    }
    mon_guard_check(w, "watcher list");
    if (cascades)
        mon_nontrivial();
}
static void v01(void) {
    if (chance(1, 6))
        ring();
    else
        watch(chance(1, 2), 1);
}
static void v02(void) { watch(1, 2); }
DRIVER("V01", v01,
       "random changes (single bits, first and last bytes, changed back, next to a location) of up to 10 possibly overlapping "
       "locations, all calls, also with callbacks that change other watched locations; non-trivial: several changes were reported and "
       "some cleared, or a callback changed another location")
DRIVER("V02", v02,
       "as V01 with delays from 1 to half the timestamp range and clock steps aimed at their end; non-trivial: a delayed callback "
       "ran, a delay was restarted by another change and a pending one was cancelled")
