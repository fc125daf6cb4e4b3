/* C02 C04 L01 over more elements than a 32-bit count holds: one history per object, judged by the same rules. */
#include "mon.h"
#include "collections/circular_buffer.h"
#include "circular_event_log/circular_event_log.h"
#include "inst_soak.h"

#define SPAN ((1ull << 32) + 70000)

static void c04s(void) {
    const soak_t *o = &soak_ops[MON->caseno % (uint64_t)soak_nops];
    void         *q = mon_zalloc(o->osz);
    uint64_t      keep = rn(o->cap), bad;
    OP("%s: %llu elements through a queue of capacity %zu holding %llu", o->name, (unsigned long long)SPAN, o->cap, (unsigned long long)keep);
    mon_op(UINT64_MAX);
    int r = o->run(q, keep, SPAN, &bad);
    CHECK(r == 0, r & 1 ? "enqueue-result" : r & 2 ? "dequeue-result" : r & 4 ? "dequeue-data" : "count",
          "after %llu elements (%llu kept, capacity %zu): %s", (unsigned long long)bad, (unsigned long long)keep, o->cap,
          r & 1 ? "an element was refused by a queue with room (or accepted by a full one)" : r & 2 ? "a stored element was not returned" : r & 4 ? "another element was returned" : "count, empty or full disagree with the contents");
    MON->events += SPAN;
    mon_state(o->cap);
    mon_nontrivial();
}
DRIVER("C04S", c04s, "2^32+70000 elements through queues of several capacities, contents and counts checked throughout")

static void c02s(void) {
    size_t          size = 50000 + rn(30000), cap = size - 1;
    circular_buf_t *cb   = mon_alloc(sizeof *cb);
    GEL_CBUF_TYPE  *mem = mon_guard(size * sizeof *mem), *src = mon_zalloc(cap * sizeof *src), *dst = mon_zalloc(cap * sizeof *src);
    CHECK_EQ(circular_buf_init(cb, mem, size), 0, "init-fails", "circular_buf_init");
    uint64_t hs = 0, ts = 0;
    OP("%llu elements through a buffer of size %zu", (unsigned long long)SPAN, size);
    while (ts < SPAN) {
        mon_op(1ull << 40);
        uint64_t in = hs - ts;
        int      watch = ts < 3 * size || SPAN - ts < 280000 || (ts >> 16 & 127) == 3;
        size_t   len = watch ? 1 + rn(cap) : cap, want = len < cap - in ? len : cap - in;
        if (watch)
            for (size_t i = 0; i < len; i++)
                src[i] = (GEL_CBUF_TYPE)((hs + i) * 0x9E3779B97F4A7C15ull >> 40);
        CHECK_EQ(circular_buf_puts(cb, src, len), want, "puts-count", "elements accepted by puts");
        if (!watch && want < cap)
            MON->events++;
        int fresh = watch && in == 0;
        hs += want;
        in = hs - ts;
        CHECK_EQ(circular_buf_size(cb), in, "size", "level");
        CHECK_EQ(is_circular_buf_full(cb) != 0, in == cap, "full", "full");
        len  = watch ? 1 + rn(cap) : cap;
        want = len < in ? len : in;
        if (fresh) {
            want = len = in;
            CHECK_EQ(circular_buf_gets(cb, dst, (int)len), want, "gets-count", "elements returned by gets");
            for (size_t i = 0; i < want; i++)
                if (dst[i] != (GEL_CBUF_TYPE)((ts + i) * 0x9E3779B97F4A7C15ull >> 40))
                    CHECK(0, "gets-data", "element %llu is wrong", (unsigned long long)(ts + i));
        } else
            CHECK_EQ(circular_buf_drop(cb, (int)len), want, "drop-count", "elements dropped");
        ts += want;
        CHECK_EQ(is_circular_buf_empty(cb) != 0, hs == ts, "empty", "empty");
    }
    mon_guard_check(mem, "buffer");
    mon_state(size);
    mon_nontrivial();
}
DRIVER("C02S", c02s, "2^32+70000 elements through a ring buffer of 50000 to 80000 places in bulk calls")

static struct { size_t cap, next, loads; uint8_t *ev; uint64_t wrong; } L;
static int save(uint8_t *e, size_t pos) {
    L.wrong += pos != L.next;
    L.next = L.next + 1 == L.cap ? 0 : L.next + 1;
    if (pos < L.cap)
        L.ev[pos] = *e;
    return 0;
}
static int load(uint8_t *e, size_t n, size_t pos) {
    CHECK(pos + n <= L.cap && pos < L.cap, "outside", "load of %zu events at %zu of %zu", n, pos, L.cap);
    memcpy(e, L.ev + pos, n);
    return (int)n;
}
static void l01s(void) {
    size_t cap = MON->caseno ? 2 + rn(300) : 7;
    L.cap = cap, L.next = L.wrong = 0, L.ev = mon_zalloc(cap);
    circular_event_log_t log = {.next_position = 0, .max_events = cap, .event_size = 1, .full_circle = 0, .save_new_event = save, .load_events = load};
    uint8_t             *out = mon_zalloc(cap + 1);
    OP("%llu events into a log of %zu", (unsigned long long)SPAN, cap);
    for (uint64_t i = 0; i < SPAN; i++) {
        uint8_t e = (uint8_t)(i * 31 + (i >> 8));
        if (circular_event_log_new_event(&log, &e) != 0)
            CHECK(0, "new-event", "event %llu was not stored", (unsigned long long)i);
        if (L.wrong)
            CHECK(0, "place", "event %llu went to another place than the next", (unsigned long long)i);
        if ((i & 0xFFFFFF) == 77 || SPAN - i < 140000) {
            mon_op(1ull << 40);
            size_t n = rn(cap + 3), j = rn(cap + 2), t = i + 1 < cap ? i + 1 : cap, want = j > t ? 0 : n < t - j ? n : t - j;
            CHECK_EQ(circular_event_log_total_events(log), t, "total", "total events");
            if (want) {
                CHECK_EQ(circular_event_log_load_last_events(log, out, n, j), want, "count", "events delivered");
                for (size_t k = 0; k < want; k++) {
                    uint64_t s = i - j - (want - 1 - k);
                    CHECK(out[k] == (uint8_t)(s * 31 + (s >> 8)), "events", "event %llu is wrong", (unsigned long long)s);
                }
            }
        }
    }
    mon_state(cap);
    mon_nontrivial();
}
DRIVER("L01S", l01s, "2^32+70000 events recorded in one log, windows read throughout")
