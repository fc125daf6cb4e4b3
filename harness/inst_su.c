/* Uses of the struct update macros (compiled with coverage). */
#include "inst_su.h"
#define F1(N, F) case N: { typeof(o->F) v; memcpy(&v, src, sizeof v); *off = (size_t)((char *)&o->F - (char *)o); *size = sizeof o->F; return STRUCT_UPDATE((*o), F, v); }
struct_update_t su_make(int which, const void *src, size_t n, size_t *off, size_t *size) {
    static const su_t zero;
    const su_t       *co = &zero; /* only its layout is used */
    su_t             *o  = (su_t *)co;
    switch (which) {
        F1(0, a) F1(1, b) F1(2, c) F1(3, pair) F1(4, big) F1(5, ptr) F1(6, last) F1(7, pair.y) F1(8, pairs[1]) F1(9, arr[3])
        case 10: *off = offsetof(su_t, arr); *size = n * 2; return STRUCT_UPDATE_ARRAY((*o), arr, (uint16_t *)src, n);
        case 11: { char *p = (char *)src; *off = offsetof(su_t, name); *size = n; return STRUCT_UPDATE_ARRAY((*o), name, p + 0, n > 4 ? n - 4 + 4 : n); }
        case 13: *off = offsetof(su_t, huge); *size = n; return STRUCT_UPDATE_ARRAY((*o), huge, (uint8_t *)src, n);
        F1(14, after) F1(22, huge[300]) F1(23, tail[7]) F1(24, last64)
        case 25: *off = offsetof(su_t, tail); *size = n * 4; return STRUCT_UPDATE_ARRAY((*o), tail, (int32_t *)src, n);
        default: break;
    }
    *off = 0;
    switch (which) {
#define CONV(N, F, T) case N: { T v; memcpy(&v, src, sizeof v); *off = (size_t)((char *)&o->F - (char *)o); *size = sizeof o->F; return STRUCT_UPDATE((*o), F, v); }
        CONV(15, f, int8_t) CONV(16, wide, int8_t) CONV(17, c, uint16_t) CONV(18, a, int32_t) CONV(19, big, uint8_t)
        CONV(20, pair.y, int16_t) CONV(21, arr[2], uint64_t)
        default: { su_pair_t *p = (su_pair_t *)src; *off = offsetof(su_t, pairs); *size = n * 8; return STRUCT_UPDATE_ARRAY((*o), pairs, p, n); }
    }
}
size_t su_maxn(int which) { return which == 10 ? 7 : which == 11 ? 19 : which == 12 ? 3 : which == 13 ? SU_HUGE : which == 25 ? 40 : 0; }
size_t su_esz(int which) {
    static const size_t z[] = {1, 4, 8, 8, 8, sizeof(void *), 1, 4, 8, 2, 2, 1, 8, 1, 2, 1, 1, 2, 4, 1, 2, 8, 1, 4, 8, 4};
    return z[which];
}
/* the bytes the field must get from the value at src: what assigning the value to it stores */
size_t su_converted(int which, const void *src, void *out) {
    union { float f; int64_t w; double c; uint8_t a; uint64_t b; int32_t y; uint16_t r; } u;
    memset(&u, 0, sizeof u);
#define TO(N, T, M) case N: { T v; memcpy(&v, src, sizeof v); u.M = v; memcpy(out, &u, sizeof u.M); return sizeof u.M; }
    switch (which) {
        TO(15, int8_t, f) TO(16, int8_t, w) TO(17, uint16_t, c) TO(18, int32_t, a) TO(19, uint8_t, b) TO(20, int16_t, y) TO(21, uint64_t, r)
        default: return 0;
    }
}
