/* Instances of the stack macros (library code: compiled with coverage). */
#include "inst_queue.h"
#include "collections/stack.h"
typedef struct { uint32_t a; uint16_t b; uint8_t c[6]; } s12_t;
typedef struct { uint8_t c[3]; } s3_t;
typedef struct { uint8_t c[300]; } s300_t;
typedef struct { uint32_t w[500]; } s2000_t;
typedef struct { uint8_t c[70001]; } s70001_t;
#define SI(NAME, T, CAP)                                                                                               \
    STACK_DECLARATION(NAME, T, CAP)                                                                                    \
    STACK_DEFINITION(NAME, T)                                                                                          \
    static void NAME##_wi(void *q) { NAME##_init(q); }                                                                 \
    static int  NAME##_wp(void *q, void *e) { return NAME##_push(q, e) == PUSH_RESULT_SUCCESS; }                       \
    static int  NAME##_wg(void *q, void *e) { return NAME##_pop(q, e) == POP_RESULT_SUCCESS; }                         \
    static int  NAME##_wk(void *q, void *e) { return NAME##_peek(q, e) == POP_RESULT_SUCCESS; }                        \
    static int  NAME##_wd(void *q) { NAME##_dequeue(q); return 1; }                                                    \
    static int  NAME##_we(void *q) { return NAME##_is_empty(q) != 0; }                                                 \
    static int  NAME##_wf(void *q) { return NAME##_is_full(q) != 0; }
#define SLIST(X)                                                                                                       \
    X(sts300_9, s300_t, 9) X(sts2000_4, s2000_t, 4) X(st8_1, uint8_t, 1) X(st8_2, uint8_t, 2) X(st8_3, uint8_t, 3) X(st16_4, uint16_t, 4) X(st32_5, uint32_t, 5)       \
    X(sts12_6, s12_t, 6) X(sts3_7, s3_t, 7) X(st64_8, uint64_t, 8) X(st8_16, uint8_t, 16) X(st32_33, uint32_t, 33)     \
    X(st8_255, uint8_t, 255) X(st8_256, uint8_t, 256) X(st16_257, uint16_t, 257) X(st8_300, uint8_t, 300)              \
    X(st8_32768, uint8_t, 32768) X(st8_33000, uint8_t, 33000) X(st16_65535, uint16_t, 65535) \
    X(sts70001_3, s70001_t, 3)
SLIST(SI)
#define SEC(N, T, C) {#N, C, sizeof(T), sizeof(struct N), N##_wi, 0, N##_wp, N##_wg, N##_wd, N##_wk, N##_we, N##_wf},
const coll_ops_t stack_ops[] = {SLIST(SEC)};
const int        stack_nops  = sizeof stack_ops / sizeof stack_ops[0];
