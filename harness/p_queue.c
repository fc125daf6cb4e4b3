/* C04: queues generated by the macros against a FIFO of serial numbers. */
#include "mon.h"
#include "inst_queue.h"

static void c04(void) {
    const coll_ops_t *o = &queue_ops[rn(queue_nops)];
    if ((o->cap > 1000 || o->esz > 60000) && !chance(1, 6))
        o = &queue_ops[rn(18)];
    int big = o->cap > 1000, wide = o->esz > 256;
    /* mostly short histories; some long enough for every index to wrap several times */
    uint64_t n = !wide && (chance(1, MON->thorough ? 6 : 24) || big) ? 70000 + rn(140000) : 30 + rn(o->esz > 60000 ? 100 : 400);
    void    *q = mon_guard(o->osz), *e = mon_guard(o->esz);
    OP("%s_init capacity %zu", o->name, o->cap);
    o->init(q);
    uint64_t hs = 0, ts = 0;
    int      bias = rn(3), saw_full = 0, saw_empty = 0, reinit = chance(1, 2) ? 0 : 40 + o->cap; /* often never: then all indices go far */
    for (uint64_t it = 0; it < n; it++) {
        uint64_t in = hs - ts;
        if (rn(8 + 2 * o->cap) == 0)
            bias = rn(3);
        int op = rn(16);
        if (bias == 1 && op >= 6 && op < 12)
            op = chance(1, 4) ? op : 0;
        if (bias == 2 && op < 6)
            op = chance(1, 4) ? op : 6;
        if (op < 6) {
            mon_elem(e, o->esz, hs);
            OP("enqueue in=%llu", (unsigned long long)in);
            int r = o->put(q, e);
            CHECK_EQ(r, in < o->cap, "enqueue-result", "enqueue accepted");
            CHECK(mon_elem_is(e, o->esz, hs), "enqueue-source", "enqueue modified its argument");
            hs += r;
        } else if (op < 11) {
            int null = chance(1, 10);
            mon_elem(e, o->esz, ~hs);
            OP("dequeue(%s) in=%llu", null ? "NULL" : "", (unsigned long long)in);
            int r = o->get(q, null ? NULL : e);
            CHECK_EQ(r, in > 0, "dequeue-result", "dequeue returned an element");
            if (!null && in)
                CHECK(mon_elem_is(e, o->esz, ts), "dequeue-data", "dequeue did not return the oldest element (number %llu, %llu stored, capacity %zu)",
                      (unsigned long long)ts, (unsigned long long)in, o->cap);
            ts += r;
        } else if (op == 11) {
            OP("drop in=%llu", (unsigned long long)in);
            int r = o->drop(q);
            CHECK_EQ(r, in > 0, "drop-result", "drop removed an element");
            ts += r;
        } else if (op == 12 && reinit && rn(reinit) == 0) {
            OP("init again");
            o->init(q);
            ts = hs;
        }
        in = hs - ts;
        CHECK_EQ(o->count(q), in, "count", "count");
        CHECK_EQ(o->empty(q), in == 0, "empty", "is_empty");
        CHECK_EQ(o->full(q), in == o->cap, "full", "is_full");
        saw_full |= in == o->cap;
        saw_empty |= in == 0 && hs > 0;
        if (o->cap <= 16)
            mon_state(mon_mix(o->cap, mon_mix(hs % (2 * o->cap), in)));
        if ((it & 255) == 0)
            mon_guard_check(q, "queue object");
    }
    while (ts < hs) {
        OP("final dequeue");
        CHECK_EQ(o->get(q, e), 1, "dequeue-result", "final dequeue returned an element");
        CHECK(mon_elem_is(e, o->esz, ts), "dequeue-data", "element %llu lost or reordered", (unsigned long long)ts);
        ts++;
    }
    mon_guard_check(q, "queue object");
    mon_guard_check(e, "element");
    if (saw_full && saw_empty && hs > 2 * o->cap)
        mon_nontrivial();
}
DRIVER("C04", c04,
       "random histories of enqueue/dequeue/drop/queries on queues of 27 capacities (1..32768) and 9 element types (1 to 70001 bytes), some histories "
       "of over 65536 operations; non-trivial: the queue was both full and empty again and its indices went round")
