#ifndef INST_LIST_H
#define INST_LIST_H
#include <stddef.h>
typedef void item_t;
/* One element layout seen through one of its two embedded nodes. */
typedef struct {
    size_t size;
    void (*set_id)(item_t *it, int id);
    int (*id)(const item_t *it);
    void (*add)(item_t *it, void *head);
    void (*add_tail)(item_t *it, void *head);
    void (*del)(item_t *it);
    int (*is_last)(item_t *it, void *head);
    /* body is called for each visit with its number, after the element was stored in out; it may be NULL
       which: 0 each, 1 each backwards, 2 entries, 3 entries backwards; returns the number of visits (at most limit) */
    int (*walk)(int which, void *head, item_t **out, int limit, void (*body)(void *, int), void *arg);
    void *(*node)(item_t *it);
    item_t *(*of)(void *node);
} lw_ops_t;
#define LW_LAYOUTS 4
extern const lw_ops_t lw[LW_LAYOUTS][2];
size_t lw_head_size(void);
void   lw_init(void *head);
void   lw_init_macro(void *head);
int    lw_empty(void *head);
/* neighbours of an item or a head; NULL when the function says so */
void *lw_next(void *node);
void *lw_prev(void *node);
#endif
