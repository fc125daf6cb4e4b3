/* L01, L02: the circular event log over a simulated storage with injected failures. */
#include "mon.h"
#include "circular_event_log/circular_event_log.h"

typedef struct {
    size_t   cap, esz;
    uint8_t *store;
    uint64_t *serial; /* serial number of the event in each slot, 0 none */
    int      fail_save, fail_load_at, load_err, loads, loads_failed; /* injected failures */
    size_t   last_save_pos;
    int      saves;
    uint8_t *dst;     /* destination of the current request */
    size_t   dst_bytes;
} st_t;
#define ST ((st_t *)MON->user)

static int save_cb(uint8_t *event, size_t position) {
    st_t *s = ST;
    CHECK(position < s->cap, "save-position", "event stored at position %zu of a storage of %zu", position, s->cap);
    s->saves++;
    s->last_save_pos = position;
    if (s->fail_save) {
        TR("  storage: save at %zu fails with %d", position, s->fail_save);
        return s->fail_save;
    }
    memcpy(s->store + position * s->esz, event, s->esz);
    return 0;
}
static int load_cb(uint8_t *events, size_t number, size_t start) {
    st_t *s = ST;
    CHECK(number <= s->cap && start <= s->cap && start + number <= s->cap, "load-range", "%zu events requested from position %zu of a storage of %zu",
          number, start, s->cap);
    s->loads++;
    if (s->fail_load_at == s->loads) {
        TR("  storage: load of %zu at %zu fails with %d", number, start, s->load_err);
        s->loads_failed++;
        return s->load_err;
    }
    if (number == 0)
        return 0;
    CHECK(events >= s->dst && events + number * s->esz <= s->dst + s->dst_bytes, "load-destination",
          "storage told to deliver %zu events outside the caller's window", number);
    memcpy(events, s->store + start * s->esz, number * s->esz);
    return (int)number;
}

static void one_log(int faults) {
    st_t *s = mon_zalloc(sizeof *s);
    MON->user = s;
    int big   = chance(1, 250) ? 2 : chance(1, 60);
    s->cap    = big == 2 ? (chance(1, 2) ? 65534 + rn(5) : 60000 + rn(90000)) : big ? 250 + rn(1000) : chance(1, 10) ? 1 + rn(300) : 1 + rn(12);
    s->esz    = big == 2 ? 1 + rn(3) : chance(1, 3) ? 1 : 1 + rn(13);
    s->store  = mon_alloc(s->cap * s->esz);
    uint64_t *live = mon_zalloc(s->cap * 8); /* serials of the stored events: a ring, the oldest one at live[first] */
    uint64_t  serial = 0, total = 0, attempts = 0, first = 0;
#define LIVE(i) live[(first + (i)) % s->cap]
    /* A log is often set up again over a storage that already holds events (a restart): position and round are restored. */
    size_t pos0 = 0;
    int    full0 = 0;
    if (big || chance(1, 4)) {
        full0 = chance(2, 3);
        pos0  = chance(1, 4) ? 0 : chance(1, 3) ? s->cap - 1 - rn(s->cap < 3 ? 1 : 3) : rn(s->cap);
        total = full0 ? s->cap : pos0;
        for (uint64_t i = 0; i < total; i++) {
            size_t p = full0 ? (pos0 + i) % s->cap : i;
            LIVE(i)  = attempts;
            mon_elem(s->store + p * s->esz, s->esz, attempts++);
        }
        serial = total;
        TR("restored over a storage holding %llu events, next position %zu", (unsigned long long)total, pos0);
    }
    circular_event_log_t log = {.next_position = pos0, .max_events = s->cap, .event_size = s->esz, .full_circle = full0, .save_new_event = save_cb, .load_events = load_cb};
    uint8_t  *ev = mon_guard(s->esz);
    int       n = 30 + rn((big == 2 ? 10 : 3 * s->cap) + 40) + (big ? 0 : mon_long(1) - 1), wrapped_read = 0, was_full = 0, hit_save = 0, hit_load = 0, retry_pos = 0;
    size_t    failpos = 0;
    for (int it = 0; it < n; it++) {
        if (chance(1, 2) || (total < s->cap && chance(1, 3))) {
            mon_elem(ev, s->esz, attempts);
            s->fail_save = faults && chance(1, 4) ? (chance(1, 2) ? -1 - (int)rn(5) : 1 + (int)rn(300)) : 0;
            s->saves     = 0;
            OP("new_event #%llu%s", (unsigned long long)attempts, s->fail_save ? " (storage fails)" : "");
            int r = circular_event_log_new_event(&log, ev);
            CHECK(mon_elem_is(ev, s->esz, attempts), "event-modified", "the recorded event was modified");
            CHECK_EQ(r, s->fail_save, "save-result", "result of recording an event");
            CHECK_EQ(s->saves, 1, "save-calls", "storage writes for one event");
            if (retry_pos)
                CHECK(s->last_save_pos == failpos, "retry-place", "after a failure at %zu the next attempt used position %zu", failpos, s->last_save_pos);
            retry_pos = 0;
            if (s->fail_save) {
                hit_save  = 1;
                retry_pos = 1;
                failpos   = s->last_save_pos;
            } else {
                if (total == s->cap)
                    first = (first + 1) % s->cap, total--;
                LIVE(total) = attempts;
                total++;
                serial++;
            }
            attempts++;
        } else {
            size_t num, jump;
            switch (rn(5)) {
                case 0: num = total; break;
                case 1: num = SIZE_MAX - rn(4) * rn(100); break;
                case 2: num = (SIZE_MAX >> rn(5 * sizeof(size_t))) + rn(3); break;
                default: num = rn(total + 3); break;
            }
            switch (rn(6)) {
                case 0: jump = total + rn(2); break;
                case 1: jump = SIZE_MAX - rn(3) * rn(100); break;
                case 2: jump = SIZE_MAX - num + rn(4); break;
                case 3: jump = 0; break;
                default: jump = rn(total + 3); break;
            }
            size_t want = jump > total ? 0 : (num < total - jump ? num : total - jump);
            s->dst_bytes    = want * s->esz;
            s->dst          = mon_guard(s->dst_bytes);
            s->loads        = s->loads_failed = 0;
            s->fail_load_at = faults && chance(1, 2) ? 1 + rn(2) : 0;
            s->load_err     = chance(1, 4) ? 0 : -1 - (int)rn(200); /* 0: nothing could be read */
            OPB((1u << 20), "load_last_events(number=%zu, jump=%zu) total=%llu", num, jump, (unsigned long long)total);
            int r = circular_event_log_load_last_events(log, s->dst, num, jump);
            if (s->loads_failed) {
                hit_load = 1;
                CHECK_EQ(r, s->load_err, "load-error", "result when the storage failed");
            } else {
                CHECK_EQ(r, want, "load-count", "events returned");
                for (size_t i = 0; i < want; i++)
                    CHECK(mon_elem_is(s->dst + i * s->esz, s->esz, LIVE(total - jump - want + i)), "load-data",
                          "event %zu of %zu (skipping %zu of %llu) is not the right one", i, want, jump, (unsigned long long)total);
                mon_obs_mem(s->dst, want * s->esz);
            }
            wrapped_read |= s->loads > 1;
            mon_guard_free(s->dst, "event destination");
        }
        OP("total_events");
        CHECK_EQ(circular_event_log_total_events(log), total, "total", "total events");
        was_full |= total == s->cap && serial > s->cap;
        mon_state(mon_mix(s->cap, mon_mix(serial % s->cap, total)));
    }
    /* everything retained is still there, in order, whatever failed before */
    s->fail_load_at = 0;
    s->dst_bytes    = total * s->esz;
    s->dst          = mon_guard(s->dst_bytes);
    OP("final load of everything");
    CHECK_EQ(circular_event_log_load_last_events(log, s->dst, total, 0), total, "load-count", "events returned at the end");
    for (size_t i = 0; i < total; i++)
        CHECK(mon_elem_is(s->dst + i * s->esz, s->esz, LIVE(i)), "load-data", "event %zu of %llu lost or reordered", i, (unsigned long long)total);
    mon_guard_free(s->dst, "event destination");
    if (faults ? (hit_save && hit_load && was_full) : (was_full && wrapped_read))
        mon_nontrivial();
}
static void l01(void) { one_log(0); }
static void l02(void) { one_log(1); }
DRIVER("L01", l01,
       "random recordings and window requests (numbers and jumps up to SIZE_MAX) on logs of 1..150000 events of 1..13 bytes, new or restored over a used storage; "
       "non-trivial: the log was overwritten and a request needed two storage reads")
DRIVER("L02", l02,
       "as L01 with storage failures injected into saves and into the first or second storage read; non-trivial: both kinds of "
       "failure happened and the log had been overwritten")
