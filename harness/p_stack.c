/* C05: stacks generated by the macros against a model stack of serial numbers. */
#include "mon.h"
#include "inst_queue.h"

static void c05(void) {
    const coll_ops_t *o = &stack_ops[rn(stack_nops)];
    if ((o->cap > 1000 || o->esz > 60000) && !chance(1, 5))
        o = &stack_ops[rn(16)];
    uint64_t  n   = o->cap > 1000 ? o->cap * 2 + rn(4000) : 30 + rn(o->esz > 60000 ? 100 : 600);
    void     *q   = mon_guard(o->osz), *e = mon_guard(o->esz);
    uint64_t *mod = mon_zalloc((o->cap + 1) * 8); /* serial numbers, bottom first */
    OP("%s_init capacity %zu", o->name, o->cap);
    o->init(q);
    uint64_t in = 0, hs = 0;
    int      bias = o->cap > 1000 ? 1 : rn(3), saw_full = 0, saw_empty = 0, saw_bottom = 0, reinit = chance(1, 2) ? 0 : 60 + o->cap;
    for (uint64_t it = 0; it < n; it++) {
        if (rn(8 + 2 * o->cap) == 0)
            bias = rn(3);
        int op = rn(16);
        if (bias == 1 && op >= 6 && op < 12)
            op = chance(1, 40) ? op : 0;
        if (bias == 2 && op < 6)
            op = chance(1, 4) ? op : 6;
        if (op < 6) {
            mon_elem(e, o->esz, hs);
            OP("push in=%llu", (unsigned long long)in);
            int r = o->put(q, e);
            CHECK_EQ(r, in < o->cap, "push-result", "push accepted");
            CHECK(mon_elem_is(e, o->esz, hs), "push-source", "push modified its argument");
            if (r)
                mod[in++] = hs;
            hs++;
        } else if (op < 9) {
            int null = chance(1, 10);
            mon_elem(e, o->esz, ~hs);
            OP("pop(%s) in=%llu", null ? "NULL" : "", (unsigned long long)in);
            int r = o->get(q, null ? NULL : e);
            CHECK_EQ(r, in > 0, "pop-result", "pop returned an element");
            if (r) {
                in--;
                CHECK(null || mon_elem_is(e, o->esz, mod[in]), "pop-data", "pop did not return the newest element");
            }
        } else if (op < 12) {
            int null = chance(1, 10);
            mon_elem(e, o->esz, ~hs);
            OP("peek(%s) in=%llu", null ? "NULL" : "", (unsigned long long)in);
            int r = o->peek(q, null ? NULL : e);
            CHECK_EQ(r, in > 0, "peek-result", "peek showed an element");
            CHECK(!r || null || mon_elem_is(e, o->esz, mod[in - 1]), "peek-data", "peek did not show the newest element");
        } else if (op == 12 && (o->cap < 1000 || chance(1, 1500))) {
            OPB(16 * (o->cap + 100), "remove from the bottom in=%llu", (unsigned long long)in);
            o->drop(q);
            if (in) {
                memmove(mod, mod + 1, (in - 1) * 8);
                in--;
                saw_bottom = 1;
            }
        } else if (op == 13 && reinit && rn(reinit) == 0) {
            OP("init again");
            o->init(q);
            in = 0;
        }
        CHECK_EQ(o->empty(q), in == 0, "empty", "is_empty");
        CHECK_EQ(o->full(q), in == o->cap, "full", "is_full");
        saw_full |= in == o->cap;
        saw_empty |= in == 0 && hs > 0;
        if (o->cap <= 300)
            mon_state(mon_mix(o->cap, mon_mix(in, op)));
        if ((it & 255) == 0)
            mon_guard_check(q, "stack object");
    }
    while (in) {
        in--;
        OP("final pop");
        CHECK_EQ(o->get(q, e), 1, "pop-result", "final pop returned an element");
        CHECK(mon_elem_is(e, o->esz, mod[in]), "pop-data", "element at depth %llu lost or reordered", (unsigned long long)in);
    }
    CHECK_EQ(o->get(q, e), 0, "pop-result", "pop of the emptied stack");
    mon_guard_check(q, "stack object");
    mon_guard_check(e, "element");
    if (saw_full && saw_empty && saw_bottom)
        mon_nontrivial();
}
DRIVER("C05", c05,
       "random histories of push/pop/peek/bottom removal/queries on stacks of 20 capacities (1..65535) and 9 element types (1 to 70001 bytes); "
       "non-trivial: the stack was full, empty again and had elements removed from the bottom")
