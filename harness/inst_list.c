/* The list macros and inline functions behind ordinary functions (library code: compiled with coverage). */
#include <stddef.h>
#include <stdint.h>
#include "inst_list.h"
#include "collections/listx.h"
size_t lw_head_size(void) { return sizeof(struct list_head); }
void   lw_init(void *head) { INIT_LIST_HEAD(head); }
void   lw_init_macro(void *head) {
    struct list_head *h = head;
    *h                  = (struct list_head)LIST_HEAD_INIT(*h);
}
int   lw_empty(void *head) { return list_empty(head) != 0; }
void *lw_next(void *node) { return list_next(node); }
void *lw_prev(void *node) { return list_prev(node); }

#define BODY if (body) body(arg, n - 1)
#define LINK_FUNCS(T, L)                                                                                               \
    void T##_##L##_add(item_t *it, void *head) { list_add(&((struct T *)it)->L, head); }                               \
    void T##_##L##_add_tail(item_t *it, void *head) { list_add_tail(&((struct T *)it)->L, head); }                     \
    void T##_##L##_del(item_t *it) { list_del(&((struct T *)it)->L); }                                                 \
    int T##_##L##_is_last(item_t *it, void *head) { return list_is_last(&((struct T *)it)->L, head) != 0; }            \
    static int  T##_##L##_walk(int which, void *head, item_t **out, int limit, void (*body)(void *, int),              \
                               void *arg) {                                                                            \
        struct list_head *pos, *h = head;                                                                              \
        struct T         *it;                                                                                          \
        int               n = 0;                                                                                       \
        switch (which) {                                                                                               \
            case 0:                                                                                                    \
                list_for_each(pos, n < 0 ? NULL : h) {                                                                     \
                    if (n == limit)                                                                                    \
                        return limit + 1;                                                                              \
                    out[n++] = container_of(pos, struct T, L);                                                         \
                    BODY;                                                                                              \
                }                                                                                                      \
                break;                                                                                                 \
            case 1:                                                                                                    \
                list_for_each_prev(pos, n < 0 ? NULL : h) {                                                                \
                    if (n == limit)                                                                                    \
                        return limit + 1;                                                                              \
                    out[n++] = container_of(pos, struct T, L);                                                         \
                    BODY;                                                                                              \
                }                                                                                                      \
                break;                                                                                                 \
            case 2:                                                                                                    \
                list_for_each_entry(it, n < 0 ? NULL : h, L) {                                                             \
                    if (n == limit)                                                                                    \
                        return limit + 1;                                                                              \
                    out[n++] = it;                                                                                     \
                    BODY;                                                                                              \
                }                                                                                                      \
                break;                                                                                                 \
            default:                                                                                                   \
                list_for_each_entry_reverse(it, n < 0 ? NULL : h, L) {                                                     \
                    if (n == limit)                                                                                    \
                        return limit + 1;                                                                              \
                    out[n++] = it;                                                                                     \
                    BODY;                                                                                              \
                }                                                                                                      \
                break;                                                                                                 \
        }                                                                                                              \
        return n;                                                                                                      \
    }                                                                                                                  \
    static void   *T##_##L##_node(item_t *it) { return &((struct T *)it)->L; }                                         \
    static item_t *T##_##L##_of(void *node) { return container_of((struct list_head *)node, struct T, L); }

#define LAYOUT(T, FIRST, BETWEEN)                                                                                      \
    struct T {                                                                                                         \
        FIRST struct list_head a;                                                                                      \
        int32_t          id;                                                                                           \
        BETWEEN struct list_head b;                                                                                    \
        uint64_t         after;                                                                                        \
    };                                                                                                                 \
    static void T##_set_id(item_t *it, int id) { ((struct T *)it)->id = id, ((struct T *)it)->after = ~(uint64_t)id; } \
    static int  T##_id(const item_t *it) {                                                                             \
        const struct T *x = it;                                                                                        \
        return x->after == ~(uint64_t)x->id ? x->id : -1;                                                              \
    }                                                                                                                  \
    LINK_FUNCS(T, a) LINK_FUNCS(T, b)
LAYOUT(l0, , uint8_t pad[4];)
LAYOUT(l1, uint8_t before[250];, uint8_t pad[12];)
LAYOUT(l2, uint32_t before[3];, uint8_t pad[40000];)
LAYOUT(l3, uint8_t before[129];, uint8_t pad[70000];)
#define OPS(T, L)                                                                                                      \
    { sizeof(struct T), T##_set_id, T##_id, T##_##L##_add, T##_##L##_add_tail, T##_##L##_del, T##_##L##_is_last,       \
      T##_##L##_walk, T##_##L##_node, T##_##L##_of }
const lw_ops_t lw[LW_LAYOUTS][2] = {{OPS(l0, a), OPS(l0, b)}, {OPS(l1, a), OPS(l1, b)}, {OPS(l2, a), OPS(l2, b)}, {OPS(l3, a), OPS(l3, b)}};
