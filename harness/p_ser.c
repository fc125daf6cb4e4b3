/* S01: serializers against byte arithmetic. */
#include "mon.h"
#include "inst_ser.h"
static void s01(void) {
    uint64_t seen = 0;
    for (int k = 0; k < 48; k++) {
        uint64_t v = rbits(64);
        int      which = rn(4);
        if (which == 0 || which == 2) {
            int          i = which == 0 ? (int)rn(nsers) : (int)rn(npcks);
            const ser_t *s = which == 0 ? &sers[i] : &pcks[i];
            uint8_t     *b = mon_guard(s->w);
            OP("%s(%#llx)", s->name, (unsigned long long)v);
            CHECK_EQ(s->f(b, v), s->w, "size", s->name);
            for (int j = 0; j < s->w; j++) {
                uint8_t want = (uint8_t)(v >> 8 * (s->be ? s->w - 1 - j : j));
                CHECK(b[j] == want, "bytes", "%s(%#llx): byte %d is %02x, expected %02x", s->name, (unsigned long long)v, j, b[j], want);
                OBS(b[j]);
            }
            mon_guard_free(b, s->name);
            seen |= 1ull << (which * 8 + i);
        } else if (which == 1) {
            int          i = (int)rn(ndess);
            const des_t *d = &dess[i];
            uint8_t     *b = mon_guard(d->w), *o = mon_guard(d->w), copy[8];
            for (int j = 0; j < d->w; j++)
                copy[j] = b[j] = (uint8_t)(v >> 8 * (d->be ? d->w - 1 - j : j));
            OP("deserialize_%s of %#llx", d->name, (unsigned long long)v);
            CHECK_EQ(d->f(o, b), d->w, "size", d->name);
            uint64_t got = 0;
            memcpy(&got, o, d->w); /* little-endian host; two's complement */
            uint64_t mask = d->w == 8 ? UINT64_MAX : (1ull << 8 * d->w) - 1;
            CHECK(got == (v & mask), "value", "deserialize_%s gave %#llx, expected %#llx", d->name, (unsigned long long)got, (unsigned long long)(v & mask));
            CHECK(!memcmp(copy, b, d->w), "source-modified", "deserialize_%s modified its source", d->name);
            OBS(got);
            mon_guard_free(o, d->name);
            mon_guard_free(b, d->name);
            seen |= 1ull << (32 + i);
        } else if (chance(7, 8)) {
            int          i = (int)rn(nunps);
            const des_t *d = &unps[i];
            uint8_t     *b = mon_guard(d->w);
            int64_t      o = 0, want = (int64_t)(d->w == 8 ? v : v & ((1ull << 8 * d->w) - 1));
            for (int j = 0; j < d->w; j++)
                b[j] = (uint8_t)(v >> 8 * (d->be ? d->w - 1 - j : j));
            OP("%s of %#llx", d->name, (unsigned long long)v);
            CHECK_EQ(d->f(&o, b), d->w, "size", d->name);
            CHECK_EQ(o, want, "unpack-value", d->name);
            mon_guard_free(b, d->name);
        } else {
            int      off = rn(5);
            uint8_t *b = mon_guard(off + 7);
            for (int j = 0; j < off + 7; j++)
                b[j] = (uint8_t)rnd();
            int64_t o[3];
            OP("unpack three consecutive fields at offset %d", off);
            CHECK_EQ(unpack_expr(b, off, o), 7, "size", "unpacking a 2, a 1 and a 4 byte field");
            CHECK_EQ(o[0], b[off] << 8 | b[off + 1], "unpack-value", "16 bit field");
            CHECK_EQ(o[1], b[off + 2], "unpack-value", "8 bit field");
            CHECK_EQ(o[2], (int64_t)((uint32_t)b[off + 3] << 24 | b[off + 4] << 16 | b[off + 5] << 8 | b[off + 6]), "unpack-value", "32 bit field");
            mon_guard_free(b, "unpack source");
        }
    }
    if (__builtin_popcountll(seen) > 12)
        mon_nontrivial();
    mon_state(seen);
}
DRIVER("S01", s01,
       "48 random calls over all serializers, deserializers and pack/unpack macros (several target types) with boundary and random "
       "values; non-trivial: more than 12 different functions were exercised")
