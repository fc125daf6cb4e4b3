/* U01: structure updates against byte images. */
#include "mon.h"
#include "inst_su.h"
#define MAXU 8
static void u01(void) {
    struct { struct_update_t u; size_t off, size; uint8_t *want; int which; } up[MAXU];
    int   nu = 0, live0 = (int)mon_lib_live(), reapplied = 0, arrays = 0, n = mon_long(20 + rn(60));
    su_t *t[3], *img[3];
    n = n > 4000 ? 4000 : n; /* every operation takes memory of the monitor */
    int   big   = chance(1, 150);
    size_t span = big ? sizeof(su_t) : offsetof(su_t, huge);
    if (big)
        n = 8 + rn(10);
    for (int i = 0; i < 3; i++) {
        t[i]   = mon_guard(span);
        img[i] = mon_zalloc(span);
        for (size_t k = 0; k < span; k += 8) {
            uint64_t r = rnd();
            memcpy((uint8_t *)t[i] + k, &r, span - k < 8 ? span - k : 8);
        }
        memcpy(img[i], t[i], span);
    }
    for (int k = 0; k < n; k++) {
        int op = rn(5);
        if (op <= 1 && nu < MAXU) {
            int    w = big && chance(1, 2) ? 13 : rn(SU_NFIELDS);
            if (SU_FAR(w) && !big)
                continue;
            size_t cnt = su_maxn(w) ? 1 + rskew(su_maxn(w) - 1) : 1, bytes = cnt * su_esz(w), raw = bytes;
            uint8_t *src = mon_guard(bytes);
            up[nu].want = mon_zalloc(bytes);
            uint8_t *copy = up[nu].want;
            for (size_t i = 0; i < bytes; i++)
                src[i] = copy[i] = (uint8_t)rnd();
            if (w == 21) /* keeps the conversion exact */
                memset(src + 2, 0, 6), memset(copy + 2, 0, 6);
            OP("create update %d of field %d, %zu elements", nu, w, cnt);
            ALLOCATES(up[nu].u = su_make(w, src, cnt, &up[nu].off, &up[nu].size));
            up[nu].which = w;
            if (w >= SU_CONVERTED && w < SU_FARFIRST) {
                up[nu].want = mon_zalloc(8);
                bytes = su_converted(w, src, up[nu].want);
            }
            CHECK_EQ(up[nu].size, bytes, "size", "bytes covered by the update");
            CHECK(!memcmp(src, copy, raw), "source-modified", "creating an update modified its source");
            memset(src, 0x3C, raw); /* the source changes and goes away */
            mon_guard_free(src, "update source");
            arrays += cnt > 1;
            nu++;
        } else if (op <= 3 && nu) {
            int i = rn(nu), d = rn(3), times = 1 + chance(1, 4);
            for (int x = 0; x < times; x++) {
                OP("apply update %d (field %d, offset %zu, size %zu) to target %d", i, up[i].which, up[i].off, up[i].size, d);
                struct_update_apply(t[d], up[i].u);
                memcpy((uint8_t *)img[d] + up[i].off, up[i].want, up[i].size);
                for (int q = 0; q < 3; q++) {
                    MON->events += span;
                    for (size_t b = 0; memcmp(t[q], img[q], span) && b < span; b++) {
                        uint8_t g = ((uint8_t *)t[q])[b], e = ((uint8_t *)img[q])[b];
                        if (g != e) {
                            int in = q == d && b >= up[i].off && b < up[i].off + up[i].size;
                            mon_fail(in ? "field-value" : "other-bytes", "byte %zu of target %d is %02x, expected %02x", b, q, g, e);
                        }
                    }
                }
                mon_obs_mem((uint8_t *)t[d] + up[i].off, up[i].size);
                mon_guard_check(t[d], "target");
            }
            reapplied += times > 1;
            mon_state(mon_mix(up[i].which, up[i].size));
        } else if (op == 4 && nu && chance(1, 2)) {
            int i = rn(nu);
            OP("free update %d", i);
            struct_update_free(up[i].u);
            up[i] = up[--nu];
        }
    }
    while (nu) {
        OP("free");
        struct_update_free(up[--nu].u);
    }
    CHECK_EQ(mon_lib_live(), live0, "leak", "blocks still allocated after every update was freed");
    if (reapplied && arrays)
        mon_nontrivial();
}
DRIVER("U01", u01,
       "random creation, application and freeing of updates of 26 fields (some more than 256 KiB into the structure) (scalars, nested structures, array elements, array prefixes up to 300000 "
       "elements, values of other types than the field) "
       "over three targets; whole images compared; non-trivial: an array update and a repeated application happened")
