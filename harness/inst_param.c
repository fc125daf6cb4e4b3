/* Parameter declarations through the library's macros. */
#include "inst_param.h"
#include <float.h>
#define U(d) ((GEL_PARAMETER_USER_DATA)(d)->data)
/* FIELD: member of raw_t that holds the limits; WIDE: a wider type the limits pass through */
#define MK(T, PT, FIELD, WIDE)                                                                                         \
    {                                                                                                                  \
        T        *v = ptr;                                                                                             \
        const T   a = (T)d->min.FIELD, b = (T)d->max.FIELD, c = (T)d->def.FIELD, s = (T)d->step.FIELD;                 \
        WIDE      wa = (WIDE)d->min.FIELD, wb = (WIDE)d->max.FIELD, wc = (WIDE)d->def.FIELD, ws = (WIDE)d->step.FIELD; \
        T        *base = v - 1;                                                                                        \
        int       one  = 1;                                                                                            \
        switch (d->form) {                                                                                             \
            case 0: return PARAMETER_FULL(v, d->pmin, d->pmax, a, b, c, s, d->lvl, U(d), d->hook, d->arg);             \
            case 1: return PARAMETER_FULL(&v[0], d->pmin, d->pmax, wa, wb, wc, ws, d->lvl, U(d), d->hook, d->arg);     \
            case 2: return PARAMETER_C99(PT, v, d->pmin, d->pmax, a, b, c, s, d->lvl, U(d), d->hook, d->arg);          \
            case 3:                                                                                                    \
                if (!d->pmin && !d->pmax && !d->hook)                                                                  \
                    return PARAMETER_STEP(v, wa, wb, wc, ws, U(d), d->lvl);                                            \
                return PARAMETER_FULL(v, d->pmin, d->pmax, wa, wb, c, s, d->lvl, U(d), d->hook, d->arg);               \
            case 4:                                                                                                    \
                if (s == 1 && !d->hook && !d->pmin && !d->pmax)                                                        \
                    return PARAMETER(base + one, a, b, c, U(d), d->lvl);                                               \
                if (s == 1 && !d->hook)                                                                                \
                    return PARAMETER_DLIMITS(base + one, d->pmin, d->pmax, a, b, c, U(d), d->lvl);                     \
                return PARAMETER_FULL(base + one, d->pmin, d->pmax, a, b, c, s, d->lvl, U(d), d->hook, d->arg);        \
            default:                                                                                                   \
                return PARAMETER_C99(PT, base + one, d->pmin, d->pmax, one ? a : b, one ? b : a, 0 ? a : c, one ? s : a, d->lvl,      \
                                     U(d), d->hook, d->arg);                                                           \
        }                                                                                                              \
    }
parameter_handle_t par_declare(int type, void *ptr, const decl_t *d) {
    switch (type) {
        case T_U8: MK(uint8_t, PARAMETER_TYPE_UINT8, u, int)
        default: MK(int8_t, PARAMETER_TYPE_INT8, i, int)
#if GEL_PARAMETER_MAX_SIZE >= 2
        case T_U16: MK(uint16_t, PARAMETER_TYPE_UINT16, u, uint64_t)
        case T_I16: MK(int16_t, PARAMETER_TYPE_INT16, i, int64_t)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
        case T_U32: MK(uint32_t, PARAMETER_TYPE_UINT32, u, int64_t)
        case T_I32: MK(int32_t, PARAMETER_TYPE_INT32, i, int64_t)
        case T_F: MK(float, PARAMETER_TYPE_FLOAT, f, double)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
        case T_U64: MK(uint64_t, PARAMETER_TYPE_UINT64, u, uint64_t)
        case T_I64: MK(int64_t, PARAMETER_TYPE_INT64, i, int64_t)
        case T_D: MK(double, PARAMETER_TYPE_DOUBLE, d, double)
#endif
    }
}

#define LI(TT, T, a, b, c, s)                                                                                          \
    spec[n] = (lit_t){TT, {.i = (int64_t)(a)}, {.i = (int64_t)(b)}, {.i = (int64_t)(c)}, {.i = (int64_t)(s)}};           \
    out[n]  = s == 1 ? PARAMETER((T *)(void *)(base + 16 * n), a, b, c, 0, 0)                                          \
                     : PARAMETER_STEP((T *)(void *)(base + 16 * n), a, b, c, s, 0, 0);                                 \
    n++;
#define LC(TT, PT, T, a, b, c, s)                                                                                      \
    spec[n] = (lit_t){TT, {.i = (int64_t)(a)}, {.i = (int64_t)(b)}, {.i = (int64_t)(c)}, {.i = (int64_t)(s)}};           \
    out[n]  = PARAMETER_C99(PT, (T *)(void *)(base + 16 * n), NULL, NULL, a, b, c, s, 0, 0, NULL, NULL);               \
    n++;
#define LF(TT, T, M, a, b, c, s)                                                                                       \
    spec[n] = (lit_t){TT, {.M = a}, {.M = b}, {.M = c}, {.M = s}};                                                     \
    out[n]  = PARAMETER_STEP((T *)(void *)(base + 16 * n), a, b, c, s, 0, 0);                                          \
    n++;
int par_literals(parameter_handle_t *out, lit_t *spec, unsigned char *base) {
    int n = 0;
    LI(T_U8, uint8_t, 0, 255, 128, 1)
    LI(T_U8, uint8_t, 200, 0xFF, 'z' + 100, 5)
    LI(T_I8, int8_t, -128, 127, -1, 1)
    LI(T_I8, int8_t, -100 + 50, -100 + 90, -20 - 10, 3)
    LI(T_I8, int8_t, -50, 50, 0, -5)
    LC(T_U8, PARAMETER_TYPE_UINT8, uint8_t, 100 + 1, 250, 200, 1)
    LC(T_I8, PARAMETER_TYPE_INT8, int8_t, -128, -1, -2, 2)
#if GEL_PARAMETER_MAX_SIZE >= 2
    LI(T_U16, uint16_t, 0, 65535, 0x8000, 1)
    LI(T_U16, uint16_t, 256, 1 << 15, 5000, 250)
    LI(T_I16, int16_t, -32768, 32767, -300, 1)
    LI(T_I16, int16_t, -1000, 1000, -5, 10)
    LC(T_U16, PARAMETER_TYPE_UINT16, uint16_t, 255, 65535, 256, 1)
    LC(T_I16, PARAMETER_TYPE_INT16, int16_t, -32768, -129, -130, 7)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
    LI(T_U32, uint32_t, 0, 0xFFFFFFFF, 0x80000000, 1)
    LI(T_U32, uint32_t, 65536, 4000000000u, 100000, 65536)
    LI(T_I32, int32_t, INT32_MIN, INT32_MAX, -1, 1)
    LI(T_I32, int32_t, -100000, 100000, -70000, 1000)
    LI(T_I32, int32_t, -100000, 100000, 0, -1 - 1)
    LC(T_U32, PARAMETER_TYPE_UINT32, uint32_t, 1, 0xFFFFFFFFu, 65536, 3)
    LC(T_I32, PARAMETER_TYPE_INT32, int32_t, INT32_MIN, -40000, -40001, 1)
    LF(T_F, float, f, -0.5f, 1.25f, 0.25f, 0.25f)
    LF(T_F, float, f, -FLT_MAX, FLT_MAX, -1.0f, 1.0f)
    LF(T_F, float, f, -1000, 1000, -3, 2)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
    LI(T_U64, uint64_t, 0, UINT64_MAX, 1ull << 63, 1)
    LI(T_U64, uint64_t, 5000000000ull, 0xFFFFFFFFFFFFFFF0ull, 6000000000ull, 4294967296ull)
    LI(T_I64, int64_t, INT64_MIN, INT64_MAX, -1, 1)
    LI(T_I64, int64_t, -5000000000ll, 5000000000ll, -4999999999ll, 2147483648ll)
    LC(T_U64, PARAMETER_TYPE_UINT64, uint64_t, 4294967295ull, UINT64_MAX, 4294967296ull, 1)
    LC(T_I64, PARAMETER_TYPE_INT64, int64_t, INT64_MIN, -4294967297ll, -4294967298ll, 9)
    LF(T_D, double, d, -0.125, 2.5, 1.0, 0.125)
    LF(T_D, double, d, -DBL_MAX, 1e300, 0.0, 1.0)
    LF(T_D, double, d, -1000, 1000, -3, 2)
    LF(T_D, double, d, -10.5, 10.5, 0.5, -0.25)
#endif
    return n;
}
