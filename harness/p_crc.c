/* S02: CRCs against bitwise polynomial division. */
#include "mon.h"
#include "crc/crc16-ccitt.h"
#include "crc/crc32.h"
static uint16_t ref16(const uint8_t *p, size_t n, uint16_t c) {
    for (size_t i = 0; i < n; i++)
        for (int b = 7; b >= 0; b--) {
            int top = (c >> 15) ^ ((p[i] >> b) & 1);
            c       = (uint16_t)((c << 1) ^ (top ? 0x1021 : 0));
        }
    return c;
}
static uint32_t ref32(const uint8_t *p, size_t n, uint32_t c) {
    for (size_t i = 0; i < n; i++)
        for (int b = 7; b >= 0; b--) {
            uint32_t top = (c >> 31) ^ ((p[i] >> b) & 1);
            c            = (c << 1) ^ (top ? 0x04C11DB7u : 0);
        }
    return c;
}
static void s02(void) {
    size_t len = chance(1, 100) ? 65530 + rn(6000) : chance(1, 6) ? rn(2000) : rn(24);
    /* the message sits at a random alignment in an exactly sized block */
    uint8_t *m = mon_guard(len);
    int      kind = rn(5);
    for (size_t i = 0; i < len; i++)
        m[i] = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? (uint8_t)i : (uint8_t)rnd();
    uint16_t i16 = (uint16_t)rbits(16);
    uint32_t i32 = (uint32_t)rbits(32);
    OPB(200 * (len + 100), "crc16_ccitt(len=%zu, init=%#x)", len, i16);
    unsigned g16 = crc16_ccitt(m, (unsigned)len, i16);
    CHECK_EQ(g16, ref16(m, len, i16), "crc16", "crc16_ccitt against bitwise division");
    OPB(200 * (len + 100), "crc32(len=%zu, init=%#x)", len, i32);
    uint32_t g32 = crc32(m, len, i32);
    CHECK_EQ(g32, ref32(m, len, i32), "crc32", "crc32 against bitwise division");
    /* any number of pieces */
    size_t   done = 0, pieces = 0;
    uint16_t c16 = i16;
    uint32_t c32 = i32;
    while (done < len) {
        size_t k = rskew(len - done);
        OPB(200 * (k + 100), "piece of %zu", k);
        c16 = crc16_ccitt(m + done, (unsigned)k, c16);
        c32 = crc32(m + done, k, c32);
        done += k;
        if (++pieces > 40 && done < len) {
            OPB(200 * (len + 100), "last piece");
            c16 = crc16_ccitt(m + done, (unsigned)(len - done), c16), c32 = crc32(m + done, len - done, c32), done = len;
        }
    }
    CHECK_EQ(c16, g16, "crc16-split", "crc16_ccitt over pieces");
    CHECK_EQ(c32, g32, "crc32-split", "crc32 over pieces");
    /* what surrounds the message does not matter: the same bytes inside a larger block */
    uint8_t *big = mon_alloc(len + 16);
    size_t   at  = rn(16);
    memcpy(big + at, m, len);
    OPB(200 * (len + 100), "the same message elsewhere");
    CHECK_EQ(crc16_ccitt(big + at, (unsigned)len, i16), g16, "crc16-context", "crc16_ccitt of the same bytes elsewhere");
    CHECK_EQ(crc32(big + at, len, i32), g32, "crc32-context", "crc32 of the same bytes elsewhere");
    mon_guard_check(m, "message");
    mon_state(mon_mix(len, kind));
    if (len > 1 && pieces > 1)
        mon_nontrivial();
}
DRIVER("S02", s02,
       "random messages of 0..71530 bytes (constant, counting, random), start values with boundary patterns, any split into pieces, "
       "any alignment; non-trivial: at least two bytes in at least two pieces")
