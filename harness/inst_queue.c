/* Instances of the queue macros (library code: compiled with coverage). */
#include "inst_queue.h"
#include "collections/queue.h"
typedef struct { uint32_t a; uint16_t b; uint8_t c[6]; } s12_t;
typedef struct { uint8_t c[3]; } s3_t;
typedef struct { uint8_t c[300]; } s300_t;
typedef struct { uint32_t w[500]; } s2000_t;
typedef struct { uint8_t c[70001]; } s70001_t;
#define QI(NAME, T, CAP)                                                                                               \
    QUEUE_DECLARATION(NAME, T, CAP)                                                                                    \
    QUEUE_DEFINITION(NAME, T)                                                                                          \
    static void   NAME##_wi(void *q) { NAME##_init(q); }                                                               \
    static size_t NAME##_wc(void *q) { return NAME##_count(q); }                                                       \
    static int    NAME##_wp(void *q, void *e) { return NAME##_enqueue(q, e) == ENQUEUE_RESULT_SUCCESS; }               \
    static int    NAME##_wg(void *q, void *e) { return NAME##_dequeue(q, e) == DEQUEUE_RESULT_SUCCESS; }               \
    static int    NAME##_wd(void *q) { return NAME##_drop(q) == DEQUEUE_RESULT_SUCCESS; }                              \
    static int    NAME##_we(void *q) { return NAME##_is_empty(q) != 0; }                                               \
    static int    NAME##_wf(void *q) { return NAME##_is_full(q) != 0; }
#define QE(NAME, T, CAP)                                                                                               \
    {#NAME, CAP, sizeof(T), sizeof(struct NAME), NAME##_wi, NAME##_wc, NAME##_wp, NAME##_wg, NAME##_wd, 0, NAME##_we, NAME##_wf}
#define QLIST(X)                                                                                                       \
    X(qs300_9, s300_t, 9) X(qs2000_4, s2000_t, 4) X(q8_1, uint8_t, 1) X(q8_2, uint8_t, 2) X(q8_3, uint8_t, 3) X(q8_4, uint8_t, 4) X(q16_5, uint16_t, 5)              \
    X(q32_6, uint32_t, 6) X(qs12_7, s12_t, 7) X(q32_8, uint32_t, 8) X(qs3_10, s3_t, 10) X(q64_12, uint64_t, 12)        \
    X(q8_16, uint8_t, 16) X(qs12_16, s12_t, 16) X(q16_32, uint16_t, 32) X(q8_100, uint8_t, 100)                        \
    X(q32_128, uint32_t, 128) X(q8_255, uint8_t, 255) X(q8_256, uint8_t, 256) X(q32_257, uint32_t, 257)                \
    X(qs3_1000, s3_t, 1000) X(q8_4096, uint8_t, 4096) X(q16_16384, uint16_t, 16384) X(q8_32767, uint8_t, 32767)        \
    X(q8_32768, uint8_t, 32768) X(q32_32768, uint32_t, 32768) \
    X(qs70001_3, s70001_t, 3)
QLIST(QI)
#define QEC(N, T, C) QE(N, T, C),
const coll_ops_t queue_ops[] = {QLIST(QEC)};
const int        queue_nops  = sizeof queue_ops / sizeof queue_ops[0];
