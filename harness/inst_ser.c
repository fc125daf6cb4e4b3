/* The inline serializers and pack/unpack macros behind ordinary functions (library code: compiled with coverage). */
#include "inst_ser.h"
#include "serializer/serializer.h"

#define W(NAME, T) static size_t w_##NAME(uint8_t *b, uint64_t v) { return serialize_##NAME(b, (T)v); }
#define R(NAME, T) static size_t r_##NAME(void *o, uint8_t *b) { return deserialize_##NAME((T *)o, b); }
W(uint8, uint8_t)
W(uint16_le, uint16_t) W(uint32_le, uint32_t) W(uint64_le, uint64_t)
W(uint16_be, uint16_t) W(uint32_be, uint32_t) W(uint64_be, uint64_t)
R(uint8, uint8_t) R(int8, int8_t)
R(uint16_le, uint16_t) R(int16_le, int16_t) R(uint32_le, uint32_t) R(int32_le, int32_t) R(uint64_le, uint64_t) R(int64_le, int64_t)
R(uint16_be, uint16_t) R(int16_be, int16_t) R(uint32_be, uint32_t) R(int32_be, int32_t) R(uint64_be, uint64_t) R(int64_be, int64_t)
const ser_t sers[] = {
    {"uint8", 1, 0, w_uint8},         {"uint16_le", 2, 0, w_uint16_le}, {"uint32_le", 4, 0, w_uint32_le}, {"uint64_le", 8, 0, w_uint64_le},
    {"uint16_be", 2, 1, w_uint16_be}, {"uint32_be", 4, 1, w_uint32_be}, {"uint64_be", 8, 1, w_uint64_be},
};
const int   nsers = sizeof sers / sizeof sers[0];
const des_t dess[] = {
    {"uint8", 1, 0, r_uint8},         {"int8", 1, 0, r_int8},           {"uint16_le", 2, 0, r_uint16_le}, {"int16_le", 2, 0, r_int16_le},
    {"uint32_le", 4, 0, r_uint32_le}, {"int32_le", 4, 0, r_int32_le},   {"uint64_le", 8, 0, r_uint64_le}, {"int64_le", 8, 0, r_int64_le},
    {"uint16_be", 2, 1, r_uint16_be}, {"int16_be", 2, 1, r_int16_be},   {"uint32_be", 4, 1, r_uint32_be}, {"int32_be", 4, 1, r_int32_be},
    {"uint64_be", 8, 1, r_uint64_be}, {"int64_be", 8, 1, r_int64_be},
};
const int ndess = sizeof dess / sizeof dess[0];

#define U(KIND, T, N) static size_t u_##KIND##_##N(void *o, uint8_t *b) { T v; size_t s = UNPACK_##KIND(v, b); *(int64_t *)o = (int64_t)v; return s; }
U(UINT8, uint8_t, u8) U(UINT8, uint16_t, u16) U(UINT8, uint32_t, u32) U(UINT8, uint64_t, u64) U(UINT8, int16_t, i16) U(UINT8, int, i32) U(UINT8, int64_t, i64)
U(UINT8, double, f64) U(UINT16_BE, uint16_t, u16) U(UINT16_BE, uint32_t, u32) U(UINT16_BE, uint64_t, u64) U(UINT16_BE, int, i32) U(UINT16_BE, int64_t, i64)
U(UINT16_BE, double, f64) U(UINT32_BE, uint32_t, u32) U(UINT32_BE, uint64_t, u64) U(UINT32_BE, int64_t, i64) U(UINT32_BE, double, f64)
#define UE(KIND, W, BE, N) {"UNPACK_" #KIND " into " #N, W, BE, u_##KIND##_##N}
const des_t unps[] = {
    UE(UINT8, 1, 0, u8), UE(UINT8, 1, 0, u16), UE(UINT8, 1, 0, u32), UE(UINT8, 1, 0, u64), UE(UINT8, 1, 0, i16), UE(UINT8, 1, 0, i32), UE(UINT8, 1, 0, i64),
    UE(UINT8, 1, 0, f64), UE(UINT16_BE, 2, 1, u16), UE(UINT16_BE, 2, 1, u32), UE(UINT16_BE, 2, 1, u64), UE(UINT16_BE, 2, 1, i32), UE(UINT16_BE, 2, 1, i64),
    UE(UINT16_BE, 2, 1, f64), UE(UINT32_BE, 4, 1, u32), UE(UINT32_BE, 4, 1, u64), UE(UINT32_BE, 4, 1, i64), UE(UINT32_BE, 4, 1, f64),
};
const int nunps = sizeof unps / sizeof unps[0];
#define P(KIND, T, N) static size_t p_##KIND##_##N(uint8_t *b, uint64_t x) { T v = (T)x; return PACK_##KIND(b, v); }
P(UINT8, uint8_t, u8) P(UINT8, uint32_t, u32) P(UINT8, int, i32) P(UINT8, int64_t, i64) P(UINT16_BE, uint16_t, u16) P(UINT16_BE, uint32_t, u32) P(UINT16_BE, int, i32) P(UINT16_BE, int64_t, i64)
const ser_t pcks[] = {
    {"PACK_UINT8 of u8", 1, 0, p_UINT8_u8}, {"PACK_UINT8 of u32", 1, 0, p_UINT8_u32}, {"PACK_UINT8 of i32", 1, 0, p_UINT8_i32}, {"PACK_UINT8 of i64", 1, 0, p_UINT8_i64},
    {"PACK_UINT16_BE of u16", 2, 1, p_UINT16_BE_u16}, {"PACK_UINT16_BE of u32", 2, 1, p_UINT16_BE_u32}, {"PACK_UINT16_BE of i32", 2, 1, p_UINT16_BE_i32}, {"PACK_UINT16_BE of i64", 2, 1, p_UINT16_BE_i64},
};
const int npcks = sizeof pcks / sizeof pcks[0];
/* a struct bit-field and an array element with side-effect free index expressions as macro arguments */
size_t unpack_expr(uint8_t *buf, int off, int64_t out[3]) {
    struct { unsigned a : 17; uint32_t b[2]; } s = {0};
    size_t n = 0;
    n += UNPACK_UINT16_BE(s.a, buf + off);
    n += UNPACK_UINT8(s.b[n & 1], &buf[off + n]);
    n += UNPACK_UINT32_BE(out[2], buf + off + n);
    out[0] = s.a;
    out[1] = s.b[0];
    return n;
}
