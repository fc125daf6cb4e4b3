/* W01 W02 W03: wear levelled memory over a simulated page with power cuts and failures. */
#include "mon.h"
#include "wearleveling/wearleveling.h"
typedef struct {
    size_t    n, len;
    uint8_t **data; /* one guarded block each */
    uint8_t  *marker;
    uint32_t *programs;
    int       writes, reads;
    /* injection into the next storage operations */
    int fail_read, fail_write, write_effect, fail_marker_at, marker_reads, err, hit;
    int cut; /* power is lost during the next block write */
} st_t;
#define ST ((st_t *)MON->user)
static void in_page(size_t b, const char *what) {
    CHECK(b < ST->n, "outside-page", "%s of block %zu of a page of %zu", what, b, ST->n);
}
static int rd(size_t b, uint8_t *buf, size_t len) {
    st_t *s = ST;
    in_page(b, "read");
    CHECK(len <= s->len, "length", "read of %zu bytes, values have %zu", len, s->len);
    s->reads++;
    if (s->fail_read) {
        s->hit = 1;
        TR("  storage: read of block %zu fails", b);
        for (size_t i = 0; chance(1, 2) && i < len; i++)
            buf[i] = (uint8_t)rnd();
        return s->err;
    }
    memcpy(buf, s->data[b], len);
    return 0;
}
static int wr(size_t b, uint8_t m, uint8_t *buf, size_t len) {
    st_t *s = ST;
    in_page(b, "write");
    CHECK_EQ(len, s->len, "length", "bytes written");
    s->writes++;
    TR("  storage: write block %zu marker %u%s", b, m, s->fail_write ? " fails" : s->cut ? " interrupted" : "");
    if (s->fail_write || s->cut) {
        s->hit = 1;
        /* what reached the storage: nothing, part of the data, all the data, everything */
        switch (s->write_effect) {
            case 0: break;
            case 1:
                for (size_t i = 0, k = rn(len + 1); i < k; i++)
                    s->data[b][i] = buf[i];
                break;
            case 2: memcpy(s->data[b], buf, len); break;
            case 3:
                for (size_t i = 0; i < len; i++)
                    s->data[b][i] = (uint8_t)rnd();
                break;
            default:
                memcpy(s->data[b], buf, len);
                s->marker[b] = m;
                s->programs[b]++;
                break;
        }
        if (s->write_effect < 4)
            s->programs[b] += s->write_effect > 0;
        return s->err;
    }
    memcpy(s->data[b], buf, len);
    s->marker[b] = m;
    s->programs[b]++;
    return 0;
}
static int rm(size_t b, uint8_t *m) {
    st_t *s = ST;
    in_page(b, "marker read");
    s->marker_reads++;
    if (s->fail_marker_at == s->marker_reads) {
        s->hit = 1;
        TR("  storage: marker read of block %zu fails", b);
        return s->err;
    }
    *m = s->marker[b];
    return 0;
}
static st_t *setup(void) {
    st_t *s   = mon_zalloc(sizeof *s);
    MON->user = s;
    switch (rn(10)) {
        case 0: s->n = 255; break;
        case 1: s->n = 254 - rn(3); break;
        case 2: s->n = 1 + rn(255); break;
        case 3: s->n = 128 + rn(2); break;
        case 4: s->n = 1; break;
        default: s->n = 2 + rn(9); break;
    }
    s->len      = 1 + rn(chance(1, 6) ? 80 : 8);
    if (chance(1, 300)) { /* values longer than 8 or 16 bits count */
        s->n   = 1 + rn(6);
        s->len = chance(1, 20) ? 65530 + rn(600) : 200 + rn(900);
    }
    s->data     = mon_zalloc(s->n * sizeof *s->data);
    s->marker   = mon_zalloc(s->n);
    s->programs = mon_zalloc(s->n * 4);
    uint8_t er = chance(1, 2) ? 0xFF : chance(1, 2) ? 0 : (uint8_t)rn(256), dv = chance(1, 2) ? er : (uint8_t)rn(256);
    for (size_t i = 0; i < s->n; i++) {
        s->data[i] = mon_alloc(s->len);
        memset(s->data[i], dv, s->len);
        s->marker[i] = er;
    }
    TR("page of %zu blocks, values of %zu bytes, erased to marker %u data %u", s->n, s->len, er, dv);
    return s;
}
static void clear_faults(st_t *s) { s->fail_read = s->fail_write = s->fail_marker_at = s->cut = s->hit = s->err = 0; s->write_effect = 0; s->marker_reads = s->writes = s->reads = 0; }
static void boot(wear_leveled_memory_t **w, st_t *s) {
    *w = mon_alloc(sizeof **w);
    clear_faults(s);
    OP("init (restart)");
    CHECK_EQ(wearleveling_init(*w, rd, wr, rm, s->n), 0, "init-result", "wearleveling_init");
    CHECK_EQ(s->writes, 0, "init-writes", "blocks programmed by initialisation");
}
static void value(st_t *s, uint8_t *v, const uint8_t *cur) {
    memcpy(v, cur, s->len);
    if (chance(1, 6)) { /* one bit of difference anywhere, the end included */
        size_t p = chance(1, 2) ? s->len - 1 : rn(s->len);
        v[p] ^= 1u << rn(8);
    } else
        for (size_t i = 0; i < s->len; i++)
            v[i] = (uint8_t)rnd();
}
static void readback(wear_leveled_memory_t *w, st_t *s, const uint8_t *cur, const char *key) {
    uint8_t *b = mon_guard(s->len);
    size_t   l = chance(3, 4) ? s->len : 1 + rn(s->len);
    clear_faults(s);
    OP("read(%zu)", l);
    CHECK_EQ(wearleveling_read(w, b, l), 0, "read-result", "wearleveling_read");
    CHECK(!memcmp(b, cur, l), key, "the value read is not the last one committed");
    mon_obs_mem(b, l);
    mon_guard_free(b, "read buffer");
}

/* now and then a memory that has already served for tens of thousands of writes */
static uint64_t worn(wear_leveled_memory_t *w, st_t *s, uint8_t *cur) {
    if (s->len > 100 || !chance(1, 500))
        return 0;
    uint64_t n = chance(1, 2) ? 65536 * rn(2) + 65536 - rn(5) : rn(140000);
    OP("%llu writes", (unsigned long long)n);
    for (uint64_t i = 0; i < n; i++) {
        for (size_t k = 0; k < s->len && ++cur[k] == 0; k++)
            ;
        clear_faults(s);
        if (wearleveling_write(w, cur, s->len) != 0 || s->writes != 1)
            CHECK(0, "write-count", "write %llu of changing values programmed %d blocks", (unsigned long long)i, s->writes);
    }
    return n;
}
static void w01(void) {
    st_t                  *s = setup();
    wear_leveled_memory_t *w;
    uint8_t               *cur = mon_zalloc(s->len), *v = mon_guard(s->len);
    memcpy(cur, s->data[0], s->len);
    boot(&w, s);
    uint64_t n = chance(1, 3) ? 2 * s->n + rn(600) : 10 + rn(60), commits = 0, boots = 0, cuts = 0;
    int      rate = 1 + rn(12);
    commits += worn(w, s, cur);
    for (uint64_t i = 0; i < n; i++) {
        value(s, v, cur);
        if (chance(1, 8))
            memcpy(v, cur, s->len);
        int same = !memcmp(v, cur, s->len);
        clear_faults(s);
        if (s->n > 1 && chance(1, 1 + rate)) {
            s->cut = 1, s->err = -1 - (int)rn(3), s->write_effect = rn(4);
            OP("write, power lost during it");
            wearleveling_write(w, v, s->len);
            cuts += s->writes > 0;
            boot(&w, s);
            boots++;
        } else {
            OP("write%s", same ? " (unchanged)" : "");
            CHECK_EQ(wearleveling_write(w, v, s->len), 0, "write-result", "wearleveling_write");
            if (!same)
                commits++;
            memcpy(cur, v, s->len);
            if (chance(1, rate)) {
                boot(&w, s);
                boots++;
            }
        }
        readback(w, s, cur, "value-lost");
        mon_state(mon_mix(s->n, mon_mix(commits % s->n, commits / s->n > 0)));
    }
    mon_guard_check(v, "value");
    if (boots && commits > s->n && (cuts || s->n == 1))
        mon_nontrivial();
}
DRIVER("W01", w01,
       "random writes with restarts between them and power cuts during them (nothing, part or all of the data stored, never the "
       "marker) on pages of 1..255 blocks; non-trivial: a restart, a cut and more commits than blocks happened")

static void w02(void) {
    st_t                  *s = setup();
    wear_leveled_memory_t *w;
    uint8_t               *cur = mon_zalloc(s->len), *v = mon_guard(s->len);
    memcpy(cur, s->data[0], s->len);
    boot(&w, s);
    uint64_t n = chance(1, 3) ? 3 * s->n + rn(300) : 10 + rn(80), same_n = 0, boots = 0, commits = 0;
    commits += worn(w, s, cur);
    for (uint64_t i = 0; i < n; i++) {
        int same = chance(1, 4);
        if (same)
            memcpy(v, cur, s->len);
        else
            do
                value(s, v, cur);
            while (!memcmp(v, cur, s->len));
        clear_faults(s);
        OP("write%s", same ? " (unchanged)" : "");
        CHECK_EQ(wearleveling_write(w, v, s->len), 0, "write-result", "wearleveling_write");
        CHECK_EQ(s->writes, !same, same ? "needless-write" : "write-count", "blocks programmed by a write");
        memcpy(cur, v, s->len);
        same_n += same;
        commits += !same;
        if (chance(1, 10)) {
            boot(&w, s);
            boots++;
        }
        uint32_t lo = UINT32_MAX, hi = 0;
        for (size_t b = 0; b < s->n; b++) {
            lo = s->programs[b] < lo ? s->programs[b] : lo;
            hi = s->programs[b] > hi ? s->programs[b] : hi;
        }
        CHECK(hi - lo <= 1, "uneven", "one block has been programmed %u times, another %u times", hi, lo);
        OBS(hi);
        mon_state(mon_mix(s->n, commits % s->n));
    }
    if (boots && same_n && commits > s->n)
        mon_nontrivial();
}
DRIVER("W02", w02,
       "random writes of changed and unchanged values with restarts; programming counts of all blocks checked after each; "
       "non-trivial: restarts, unchanged writes and more commits than blocks happened")

static void w03(void) {
    st_t                  *s = setup();
    wear_leveled_memory_t *w;
    uint8_t               *cur = mon_zalloc(s->len), *v = mon_guard(s->len), *alt = mon_zalloc(s->len);
    memcpy(cur, s->data[0], s->len);
    boot(&w, s);
    uint64_t n = 10 + rn(80) + (chance(1, 5) ? s->n : 0);
    int      hr = 0, hw = 0, hm = 0, alt_on = 0;
    for (uint64_t i = 0; i < n; i++) {
        clear_faults(s);
        s->err = chance(1, 2) ? -1 - (int)rn(4) : 1 + (int)rn(200);
        switch (rn(6)) {
            case 0: { /* read failure on a read */
                uint8_t *b   = mon_guard(s->len);
                s->fail_read = 1;
                OP("read, storage fails");
                CHECK(wearleveling_read(w, b, s->len) != 0, "read-hides-failure", "a failed read reported success");
                mon_guard_free(b, "read buffer");
                hr = 1;
                break;
            }
            case 1: { /* read failure on a write */
                value(s, v, cur);
                s->fail_read = 1;
                OP("write, storage reads fail");
                int r = wearleveling_write(w, v, s->len);
                if (s->hit)
                    CHECK(r != 0, "write-hides-failure", "a write whose comparison read failed reported success");
                else
                    memcpy(cur, v, s->len);
                if (s->hit) {
                    CHECK_EQ(s->writes, 0, "write-after-failure", "blocks programmed after the read failed");
                    hr = 1;
                }
                break;
            }
            case 2: { /* write failure */
                do
                    value(s, v, cur);
                while (!memcmp(v, cur, s->len));
                s->fail_write   = 1;
                s->write_effect = s->n == 1 ? 0 : alt_on ? (int)rn(2) * 4 : (int)rn(5);
                /* (a block already carrying the next marker is not damaged further: no library could tell) */
                OP("write, storage write fails (effect %d)", s->write_effect);
                int r = wearleveling_write(w, v, s->len);
                CHECK(r != 0, "write-hides-failure", "a failed write reported success");
                hw = 1;
                if (s->write_effect == 4) {
                    memcpy(alt, v, s->len); /* reported as failed, but complete in the storage: may appear after a restart */
                    alt_on = 1;
                }
                readback(w, s, cur, "value-after-failure");
                if (chance(1, 2)) { /* the same write tried again */
                    clear_faults(s);
                    OP("write again");
                    CHECK_EQ(wearleveling_write(w, v, s->len), 0, "retry-result", "retried write");
                    memcpy(cur, v, s->len);
                    alt_on = 0;
                }
                break;
            }
            case 3: { /* failing initialisation */
                wear_leveled_memory_t *w2 = mon_alloc(sizeof *w2);
                s->fail_marker_at         = 1 + rn(s->n > 4 && chance(1, 2) ? 4 : s->n);
                OP("init, marker read %d fails", s->fail_marker_at);
                int r = wearleveling_init(w2, rd, wr, rm, s->n);
                if (s->hit) {
                    CHECK(r != 0, "init-hides-failure", "initialisation reported success although a marker could not be read");
                    hm = 1;
                } else
                    CHECK_EQ(r, 0, "init-result", "wearleveling_init");
                break;
            }
            case 4: { /* restart */
                boot(&w, s);
                if (alt_on) {
                    uint8_t *b = mon_guard(s->len);
                    clear_faults(s);
                    OP("read");
                    CHECK_EQ(wearleveling_read(w, b, s->len), 0, "read-result", "wearleveling_read");
                    if (!memcmp(b, alt, s->len))
                        memcpy(cur, alt, s->len);
                    mon_guard_free(b, "read buffer");
                    alt_on = 0;
                }
                break;
            }
            default:
                value(s, v, cur);
                s->err = 0;
                OP("write");
                CHECK_EQ(wearleveling_write(w, v, s->len), 0, "write-result", "wearleveling_write");
                if (memcmp(v, cur, s->len))
                    alt_on = 0;
                memcpy(cur, v, s->len);
                break;
        }
        readback(w, s, cur, "value-after-failure");
    }
    if (!alt_on) {
        boot(&w, s);
        readback(w, s, cur, "value-after-restart");
    }
    if (hr && hw && hm)
        mon_nontrivial();
}
DRIVER("W03", w03,
       "random writes, reads, restarts and initialisations with storage failures injected into reads, writes (with no, partial, "
       "garbled or full effect on the block) and marker reads; non-trivial: all three kinds of failure happened")
