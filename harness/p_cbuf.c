/* C02: the ring buffer against a queue model, one thread. */
#include "mon.h"
#include "collections/circular_buffer.h"

#define ESZ sizeof(GEL_CBUF_TYPE)

static void c02(void) {
    size_t bufsize;
    switch (rn(12)) {
        case 0: bufsize = 1 + rn(2); break;
        case 1: bufsize = 250 + rn(20); break;
        case 2: bufsize = chance(1, 8) ? 65530 + rn(5000) : 17 + rn(64); break;
        default: bufsize = 1 + rn(17); break;
    }
    size_t          cap = bufsize - 1;
    circular_buf_t *cb  = mon_alloc(sizeof *cb);
    GEL_CBUF_TYPE  *mem = mon_guard(bufsize * ESZ);
    if (chance(1, 16)) {
        OP("init(NULL buffer)");
        CHECK(circular_buf_init(cb, NULL, bufsize) != 0, "init-accepts", "init without a buffer reported success");
        CHECK(circular_buf_init(cb, mem, 0) != 0, "init-accepts", "init with size 0 reported success");
    }
    OP("init(size=%zu) element size %zu", bufsize, ESZ);
    CHECK_EQ(circular_buf_init(cb, mem, bufsize), 0, "init-fails", "circular_buf_init");
    uint64_t hs = 0, ts = 0, pos = 0; /* serial numbers accepted / consumed, write position */
    int      saw_full = 0, saw_wrap = 0;
    int      big = bufsize > 1000;
    int      n = big ? 60 : mon_long(20 + rn(120)), bias = 0;
    for (int it = 0; it < n; it++) {
        uint64_t stored = hs - ts, room = cap - stored;
        size_t   len;
        if (it % 16 == 0)
            bias = rn(3);
        switch (rn(6)) {
            case 0: len = room; break;
            case 1: len = stored; break;
            case 2: len = (bufsize - pos % bufsize) + rn(3) - 1; break;
            case 3: len = rn(cap + 4); break;
            default: len = rn(5); break;
        }
        int op = rn(12);
        if (bias == 1 && op >= 5 && op <= 8 && chance(2, 3))
            op = rn(3);
        if (bias == 2 && op <= 2 && chance(2, 3))
            op = 5 + rn(4);
        switch (op) {
            case 0: case 1: {
                GEL_CBUF_TYPE *src = mon_guard(len * ESZ);
                for (size_t i = 0; i < len; i++)
                    mon_elem((uint8_t *)src + i * ESZ, ESZ, hs + i);
                uint64_t want = len < room ? len : room;
                OPB(64 * (len + 64), "puts(len=%zu) stored=%llu room=%llu", len, (unsigned long long)stored, (unsigned long long)room);
                int got = circular_buf_puts(cb, src, len);
                CHECK_EQ(got, want, "puts-count", "elements accepted by puts");
                mon_guard_free(src, "puts source");
                hs += want;
                pos += want;
                break;
            }
            case 2: case 3: {
                GEL_CBUF_TYPE v;
                mon_elem(&v, ESZ, hs);
                OP("putc stored=%llu", (unsigned long long)stored);
                int got = circular_buf_putc(cb, v);
                CHECK_EQ(got == 0, room > 0, "putc-result", "putc accepted");
                if (room)
                    hs++, pos++;
                break;
            }
            case 4: case 5: {
                int            null = op == 4 && chance(1, 4), peek = chance(1, 3);
                GEL_CBUF_TYPE *dst = null ? NULL : mon_guard(len * ESZ);
                uint64_t       want = len < stored ? len : stored;
                OPB(64 * (len + 64), "%s(len=%zu%s) stored=%llu", peek ? "peek" : "gets", len, null ? ", NULL" : "", (unsigned long long)stored);
                int got = peek ? circular_buf_peek(cb, dst, (int)len) : circular_buf_gets(cb, dst, (int)len);
                CHECK_EQ(got, want, peek ? "peek-count" : "gets-count", "elements returned");
                if (!null) {
                    for (uint64_t i = 0; i < want; i++)
                        CHECK(mon_elem_is((uint8_t *)dst + i * ESZ, ESZ, ts + i), peek ? "peek-data" : "gets-data",
                              "element %llu of %llu is not the one written in that position", (unsigned long long)i, (unsigned long long)want);
                    mon_obs_mem(dst, want * ESZ);
                    mon_guard_free(dst, "read destination");
                }
                if (!peek)
                    ts += want;
                break;
            }
            case 6: {
                uint64_t want = len < stored ? len : stored;
                OPB(64 * (len + 64), "drop(len=%zu) stored=%llu", len, (unsigned long long)stored);
                CHECK_EQ(circular_buf_drop(cb, (int)len), want, "drop-count", "elements dropped");
                ts += want;
                break;
            }
            case 7: case 8: {
                GEL_CBUF_TYPE *dst = chance(1, 5) ? NULL : mon_guard(ESZ);
                OP("getc(%s) stored=%llu", dst ? "" : "NULL", (unsigned long long)stored);
                int got = circular_buf_getc(cb, dst);
                CHECK_EQ(got == 0, stored > 0, "getc-result", "getc returned an element");
                if (stored) {
                    CHECK(!dst || mon_elem_is(dst, ESZ, ts), "getc-data", "getc returned another element than the oldest one");
                    ts++;
                }
                if (dst)
                    mon_guard_free(dst, "getc destination");
                break;
            }
            case 9:
                if (seldom(1, 6)) {
                    OP("reset");
                    circular_buf_reset(cb);
                    ts = hs;
                    pos = 0;
                }
                break;
            default: break;
        }
        stored = hs - ts;
        OP("queries");
        CHECK_EQ(circular_buf_size(cb), stored, "size", "circular_buf_size");
        CHECK_EQ(is_circular_buf_empty(cb) != 0, stored == 0, "empty", "is_circular_buf_empty");
        CHECK_EQ(is_circular_buf_full(cb) != 0, stored == cap, "full", "is_circular_buf_full");
        CHECK_EQ(circular_buf_capacity(cb), cap, "capacity", "circular_buf_capacity");
        mon_guard_check(mem, "ring storage");
        saw_full |= stored == cap && cap;
        saw_wrap |= pos > bufsize;
        mon_state(mon_mix(bufsize, mon_mix(pos % bufsize, stored)));
    }
    /* drain: everything still stored comes out in order */
    uint64_t left = hs - ts;
    GEL_CBUF_TYPE *dst = mon_guard((left + 1) * ESZ);
    OPB(64 * (left + 64), "final gets(%llu)", (unsigned long long)left + 1);
    CHECK_EQ(circular_buf_gets(cb, dst, (int)(left + 1)), left, "gets-count", "elements returned by the final gets");
    for (uint64_t i = 0; i < left; i++)
        CHECK(mon_elem_is((uint8_t *)dst + i * ESZ, ESZ, ts + i), "gets-data", "element %llu lost or reordered", (unsigned long long)i);
    mon_guard_check(dst, "read destination");
    mon_guard_check(mem, "ring storage");
    if (saw_full && saw_wrap)
        mon_nontrivial();
}
DRIVER("C02", c02,
       "random histories of puts/putc/gets/getc/peek/drop/reset/queries on one ring buffer; sizes 1..70500, lengths aimed at "
       "free space, level and distance to the wrap; non-trivial: the buffer was full and its position wrapped")
