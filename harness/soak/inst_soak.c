/* Queues through which more than 2^32 elements pass (library code: the macros are expanded here). */
#include "inst_soak.h"
#include "collections/queue.h"
#define SK(NAME, T, CAP)                                                                                               \
    QUEUE_DECLARATION(NAME, T, CAP)                                                                                    \
    QUEUE_DEFINITION(NAME, T)                                                                                          \
    static int NAME##_run(void *mem, uint64_t keep, uint64_t n, uint64_t *bad) {                                       \
        struct NAME *q = mem;                                                                                          \
        uint64_t     i = 0;                                                                                            \
        NAME##_init(q);                                                                                                \
        for (; i < keep; i++) {                                                                                        \
            T v = (T)i;                                                                                                \
            if (NAME##_enqueue(q, &v) != ENQUEUE_RESULT_SUCCESS)                                                       \
                return *bad = i, 1;                                                                                    \
        }                                                                                                              \
        for (; i < n; i++) {                                                                                           \
            T v = (T)i, r;                                                                                             \
            if (NAME##_enqueue(q, &v) != ENQUEUE_RESULT_SUCCESS)                                                       \
                return *bad = i, 1;                                                                                    \
            if ((i & 0xFFFFF) == 12345 || n - i < 80000) {                                                             \
                T w = (T)~i;                                                                                           \
                if (NAME##_count(q) != keep + 1 || NAME##_is_empty(q) || !NAME##_is_full(q) != (keep + 1 < CAP))       \
                    return *bad = i, 8;                                                                                \
                if (keep + 1 == CAP && NAME##_enqueue(q, &w) == ENQUEUE_RESULT_SUCCESS)                                \
                    return *bad = i, 1;                                                                                \
            }                                                                                                          \
            if (NAME##_dequeue(q, &r) != DEQUEUE_RESULT_SUCCESS)                                                       \
                return *bad = i, 2;                                                                                    \
            if (r != (T)(i - keep))                                                                                    \
                return *bad = i, 4;                                                                                    \
        }                                                                                                              \
        return 0;                                                                                                      \
    }
SK(sk8_3, uint8_t, 3)
SK(sk16_1, uint16_t, 1)
SK(sk32_6, uint32_t, 6)
SK(sk8_100, uint8_t, 100)
SK(sk32_1000, uint32_t, 1000)
SK(sk16_32768, uint16_t, 32768)
#define SE(N, CAP) {#N, CAP, sizeof(struct N), N##_run}
const soak_t soak_ops[] = {SE(sk8_3, 3), SE(sk32_6, 6), SE(sk8_100, 100), SE(sk32_1000, 1000), SE(sk16_1, 1), SE(sk16_32768, 32768)};
const int    soak_nops  = sizeof soak_ops / sizeof soak_ops[0];
