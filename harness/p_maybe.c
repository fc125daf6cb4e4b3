/* U02: optional values and the option laws. */
#include "mon.h"
#include "inst_maybe.h"
typedef struct { uint64_t salt[3]; int calls[3], none[3]; } st_t;
#define S ((st_t *)MON->user)
static const char text[512];

/* values of every type made from a number, and the number back */
static int32_t  mk_int32_t(uint64_t v) { return (int32_t)v; }
static uint8_t  mk_uint8_t(uint64_t v) { return (uint8_t)v; }
static uint64_t mk_uint64_t(uint64_t v) { return v; }
static double   mk_double(uint64_t v) { return (double)(int32_t)v; }
static s12_t    mk_s12_t(uint64_t v) { return (s12_t){(uint32_t)v, {(uint16_t)(v >> 7), (uint16_t)(v >> 20), (uint16_t)v}, (uint16_t)(v >> 48)}; }
static str_t    mk_str_t(uint64_t v) { return v % 7 == 0 ? NULL : text + v % 512; }
static uint64_t un_int32_t(int32_t x) { return (uint64_t)x; }
static uint64_t un_uint8_t(uint8_t x) { return x; }
static uint64_t un_uint64_t(uint64_t x) { return x; }
static uint64_t un_double(double x) { return (uint64_t)(int64_t)x; }
static uint64_t un_s12_t(s12_t x) { return mon_mix(x.a, mon_mix(x.b[0] | (uint64_t)x.b[1] << 16 | (uint64_t)x.b[2] << 32, x.c)); }
static uint64_t un_str_t(str_t x) { return x ? (uint64_t)(x - text) + 1 : 0; }

#define FN(T, K)                                                                                                       \
    static T f##K##_##T(T x) {                                                                                         \
        S->calls[K]++;                                                                                                 \
        return mk_##T(mon_mix(un_##T(x), S->salt[K]));                                                                 \
    }                                                                                                                  \
    static MAYBE(T) g##K##_##T(T x) {                                                                                  \
        S->calls[K]++;                                                                                                 \
        uint64_t h = mon_mix(un_##T(x), S->salt[K]);                                                                   \
        return h % 4 < (unsigned)S->none[K] ? maybe_##T##_nothing() : maybe_##T##_return(mk_##T(h));                   \
    }
#define SAME(T, a, b) (maybe_##T##_is_just(&(a)) == maybe_##T##_is_just(&(b)) &&                                       \
                       (!maybe_##T##_is_just(&(a)) || un_##T((a).just) == un_##T((b).just)))
#define ZERO() (S->calls[0] = S->calls[1] = 0)
#define TYPE_TEST(T)                                                                                                   \
    FN(T, 0)                                                                                                           \
    FN(T, 1)                                                                                                           \
    static T        id_##T(T x) { return x; }                                                                          \
    static T        f10_##T(T x) { return f1_##T(f0_##T(x)); }                                                         \
    static MAYBE(T) ret_##T(T x) { return maybe_##T##_return(x); }                                                     \
    static MAYBE(T) g01_##T(T x) { return maybe_##T##_bind(g0_##T(x), g1_##T); }                                       \
    static void test_##T(uint64_t v, uint64_t dv) {                                                                    \
        T x = mk_##T(v), d = mk_##T(dv);                                                                               \
        OP(#T ": return, default, nothing (%#llx)", (unsigned long long)v);                                            \
        MAYBE(T) j = maybe_##T##_return(x), e = maybe_##T##_nothing(), e2 = MAYBE_NOTHING, r, q;                       \
        CHECK_EQ(maybe_##T##_is_just(&j) != 0, 1, "present", #T " built from a value is present");                     \
        CHECK_EQ(maybe_##T##_is_just(&e) != 0, 0, "empty", #T " nothing() is present");                                \
        CHECK_EQ(maybe_##T##_is_just(&e2) != 0, 0, "empty", #T " MAYBE_NOTHING is present");                           \
        CHECK(un_##T(maybe_##T##_with_default(&j, d)) == un_##T(x), "value", #T " present value replaced");            \
        CHECK(un_##T(maybe_##T##_with_default(&e, d)) == un_##T(d), "default", #T " default not given");               \
        CHECK(un_##T(maybe_##T##_with_default(&e2, d)) == un_##T(d), "default", #T " default not given");              \
        OBS(un_##T(maybe_##T##_with_default(&j, d)));                                                                  \
        OP(#T ": map");                                                                                                \
        ZERO();                                                                                                        \
        r = maybe_##T##_map(j, f0_##T);                                                                                \
        CHECK_EQ(S->calls[0], 1, "map-calls", #T " calls of the mapped function");                                     \
        CHECK_EQ(maybe_##T##_is_just(&r) != 0, 1, "map", #T " mapped value is present");                               \
        CHECK(un_##T(r.just) == un_##T(mk_##T(mon_mix(un_##T(x), S->salt[0]))), "map", #T " mapped value differs");    \
        OBS(un_##T(r.just));                                                                                           \
        ZERO();                                                                                                        \
        r = maybe_##T##_map(e, f0_##T);                                                                                \
        CHECK_EQ(S->calls[0], 0, "map-calls", #T " calls for an empty value");                                         \
        CHECK_EQ(maybe_##T##_is_just(&r) != 0, 0, "map-empty", #T " mapped empty value is present");                   \
        r = maybe_##T##_map(j, id_##T);                                                                                \
        CHECK(SAME(T, r, j), "map-identity", #T " mapping the identity changed the value");                            \
        r = maybe_##T##_map(maybe_##T##_map(j, f0_##T), f1_##T);                                                       \
        q = maybe_##T##_map(j, f10_##T);                                                                               \
        CHECK(SAME(T, r, q), "map-fusion", #T " mapping twice differs from mapping the composition");                  \
        OP(#T ": bind");                                                                                               \
        ZERO();                                                                                                        \
        r = maybe_##T##_bind(j, g0_##T);                                                                               \
        CHECK_EQ(S->calls[0], 1, "bind-calls", #T " calls of the bound function");                                     \
        q = g0_##T(x);                                                                                                 \
        CHECK(SAME(T, r, q), "left-identity", #T " bind of a returned value differs from the call");                   \
        OBS(maybe_##T##_is_just(&r));                                                                                  \
        ZERO();                                                                                                        \
        r = maybe_##T##_bind(e, g0_##T);                                                                               \
        CHECK_EQ(S->calls[0], 0, "bind-calls", #T " calls for an empty value");                                        \
        CHECK_EQ(maybe_##T##_is_just(&r) != 0, 0, "bind-empty", #T " bound empty value is present");                   \
        r = maybe_##T##_bind(j, ret_##T);                                                                              \
        CHECK(SAME(T, r, j), "right-identity", #T " binding return changed the value");                                \
        r = maybe_##T##_bind(e, ret_##T);                                                                              \
        CHECK(SAME(T, r, e), "right-identity", #T " binding return made an empty value present");                      \
        r = maybe_##T##_bind(maybe_##T##_bind(j, g0_##T), g1_##T);                                                     \
        q = maybe_##T##_bind(j, g01_##T);                                                                              \
        CHECK(SAME(T, r, q), "associativity", #T " bind is not associative");                                          \
        CHECK(un_##T(j.just) == un_##T(x) && maybe_##T##_is_just(&j), "modified", #T " the operand was modified");     \
    }
TYPE_TEST(int32_t)
TYPE_TEST(uint8_t)
TYPE_TEST(uint64_t)
TYPE_TEST(double)
TYPE_TEST(s12_t)
TYPE_TEST(str_t)
static void u02(void) {
    st_t *s = mon_zalloc(sizeof *s);
    MON->user = s;
    void (*const t[])(uint64_t, uint64_t) = {test_int32_t, test_uint8_t, test_uint64_t, test_double, test_s12_t, test_str_t};
    unsigned kinds = 0;
    for (int k = 0; k < 12; k++) {
        s->salt[0] = rnd(), s->salt[1] = rnd();
        s->none[0] = rn(5), s->none[1] = rn(5);
        int i = rn(6);
        uint64_t v = rbits(64), dv = rbits(64);
        t[i](v, dv);
        kinds |= 1u << i;
        mon_state(mon_mix(i, mon_mix(s->none[0], s->none[1])));
    }
    if (__builtin_popcount(kinds) > 3)
        mon_nontrivial();
}
DRIVER("U02", u02,
       "random values (zero, extremes, null pointers), defaults and functions for optionals of six types; all option laws and call "
       "counts; non-trivial: more than three types were exercised")
