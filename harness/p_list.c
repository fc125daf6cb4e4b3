/* C06: intrusive lists against arrays of item numbers. Items have two nodes: odd lists use the second one. */
#include "mon.h"
#include "inst_list.h"
#define MAXI 24
#define HUGE 4000
#define MAXL 4
typedef struct {
    item_t         *it[HUGE], *out[HUGE + 2];
    void           *head[MAXL];
    int             seq[MAXL][HUGE], len[MAXL], where[2][HUGE], removed[HUGE];
    int             nl, ni;
    const lw_ops_t *o;
    int             wl, wback, want, changes; /* the walk that is under way */
} st_t;

static void link_item(st_t *s, int i, int l, int tail) {
    const lw_ops_t *o = &s->o[l & 1];
    OP("%s item %d to list %d", tail ? "add_tail" : "add", i, l);
    if (tail) {
        o->add_tail(s->it[i], s->head[l]);
        s->seq[l][s->len[l]++] = i;
    } else {
        o->add(s->it[i], s->head[l]);
        memmove(&s->seq[l][1], &s->seq[l][0], s->len[l] * sizeof(int));
        s->seq[l][0] = i;
        s->len[l]++;
    }
    s->where[l & 1][i] = l;
}
static int unlink_item(st_t *s, int i, int l) {
    int p = 0, inner;
    OP("del item %d from list %d", i, l);
    s->o[l & 1].del(s->it[i]);
    while (s->seq[l][p] != i)
        p++;
    inner = p > 0 && p + 1 < s->len[l];
    memmove(&s->seq[l][p], &s->seq[l][p + 1], (s->len[l] - p - 1) * sizeof(int));
    s->len[l]--;
    s->where[l & 1][i] = -1;
    s->removed[i]      = 1;
    return inner;
}
/* The body of a walk: the element visited is the next one of the list as it is by now; other elements come and go. */
static void body(void *arg, int n) {
    st_t *s = arg;
    int   l = s->wl, cur = s->want, p = 0;
    CHECK(cur >= 0, "walk-changed", "visit %d of a changing list: there is no further element", n);
    CHECK(s->out[n] == s->it[cur], "walk-changed", "visit %d of a changing list is not item %d", n, cur);
    for (int x = s->changes > 0 ? (int)rn(3) : 0; x > 0; x--, s->changes--) {
        int i = rn(s->ni);
        if (i == cur)
            continue;
        if (s->where[l & 1][i] < 0)
            link_item(s, i, l, rn(2));
        else if (s->where[l & 1][i] == l)
            unlink_item(s, i, l);
    }
    while (s->seq[l][p] != cur)
        p++;
    p += s->wback ? -1 : 1;
    s->want = p >= 0 && p < s->len[l] ? s->seq[l][p] : -1;
}
static void walk_changing(st_t *s, int l) {
    int w = (int)rn(4), n;
    s->wl = l, s->wback = w % 2, s->changes = s->ni;
    s->want = s->len[l] ? s->seq[l][w % 2 ? s->len[l] - 1 : 0] : -1;
    OP("walk %d over list %d while it changes", w, l);
    n = s->o[l & 1].walk(w, s->head[l], s->out, HUGE, body, s);
    CHECK(n <= HUGE && s->want == -1, "walk-changed", "the walk ended after %d visits, before item %d", n, s->want);
}

static void verify(st_t *s, int l) {
    item_t        **out = s->out;
    const lw_ops_t *o = &s->o[l & 1];
    for (int w = 0; w < 4; w++) {
        int n = o->walk(w, s->head[l], out, s->ni + 1, NULL, NULL);
        CHECK_EQ(n, s->len[l], w % 2 ? "backward-length" : "forward-length", "elements visited");
        for (int i = 0; i < n; i++) {
            int want = s->seq[l][w % 2 ? n - 1 - i : i];
            CHECK(out[i] == s->it[want] && o->id(out[i]) == want, w % 2 ? "backward-order" : "forward-order",
                  "walk %d of list %d: position %d is not item %d", w, l, i, want);
            OBS(want);
        }
    }
    CHECK_EQ(lw_empty(s->head[l]), s->len[l] == 0, "empty", "list_empty");
    void *h = s->head[l];
    int   n = s->len[l];
    CHECK(lw_next(h) == (n ? o->node(s->it[s->seq[l][0]]) : NULL), "next", "list_next of the head");
    CHECK(lw_prev(h) == (n ? o->node(s->it[s->seq[l][n - 1]]) : NULL), "prev", "list_prev of the head");
    for (int i = 0; i < n; i++) {
        item_t *x = s->it[s->seq[l][i]];
        CHECK_EQ(o->is_last(x, h), i == n - 1, "is-last", "list_is_last");
        CHECK(lw_next(o->node(x)) == (i + 1 < n ? o->node(s->it[s->seq[l][i + 1]]) : h), "next", "list_next of element %d", i);
        CHECK(lw_prev(o->node(x)) == (i ? o->node(s->it[s->seq[l][i - 1]]) : h), "prev", "list_prev of element %d", i);
        CHECK(o->of(o->node(x)) == x, "container", "container_of did not return the containing object");
    }
}

static void c06(void) {
    st_t *s = mon_zalloc(sizeof *s);
    int   y = chance(1, 24) ? 2 + rn(2) : rn(2), big = chance(1, 600);
    if (big)
        y = rn(2);
    s->o    = lw[y];
    s->nl   = 1 + rn(big ? 2 : MAXL);
    s->ni   = big ? 500 + rn(HUGE - 499) : y >= 2 ? 1 + rn(6) : 1 + rn(MAXI);
    TR("layout %d (%u bytes)", y, (unsigned)s->o->size);
    for (int i = 0; i < s->ni; i++) {
        s->it[i] = mon_alloc(s->o->size);
        s->o->set_id(s->it[i], i);
        s->where[0][i] = s->where[1][i] = -1;
    }
    for (int l = 0; l < s->nl; l++) {
        s->head[l] = mon_alloc(lw_head_size());
        OP("init list %d", l);
        chance(1, 2) ? lw_init(s->head[l]) : lw_init_macro(s->head[l]);
    }
    int n = big ? 3 * s->ni : mon_long(10 + rn(120)), mid = 0, again = 0, *removed = s->removed;
    for (int k = 0; k < n; k++) {
        int i = rn(s->ni), l = rn(s->nl);
        int            *where = s->where[l & 1];
        if (where[i] < 0) {
            link_item(s, i, l, rn(2));
            again |= removed[i];
        } else if (chance(big ? 1 : 4, big ? 5 : 6)) {
            l = where[i];
            mid |= unlink_item(s, i, l);
        } else if (seldom(1, big ? 4000 : 12)) {
            OP("empty list %d by init", l);
            for (int p = 0; p < s->len[l]; p++)
                where[s->seq[l][p]] = -1;
            s->len[l] = 0;
            lw_init(s->head[l]);
        }
        if (!big && chance(1, 16))
            walk_changing(s, l = rn(s->nl));
        uint64_t h = 7;
        if (big && !chance(1, 200))
            continue;
        for (int q = 0; q < s->nl; q++) {
            if (q == l || chance(1, 4))
                verify(s, q);
            for (int p = 0; p < s->len[q]; p++)
                h = mon_mix(h, s->seq[q][p]);
            h = mon_mix(h, 99);
        }
        mon_state(h);
    }
    for (int q = 0; q < s->nl; q++)
        verify(s, q);
    if (mid && again)
        mon_nontrivial();
}
DRIVER("C06", c06,
       "random insertions at head and tail, removals and re-insertions of up to 24 (one case in 600: 4000) items of four layouts (node offsets 0 to "
       "70000 bytes, two nodes per item) over up to 4 lists, all four walks and neighbour queries checked after each, walks over lists that change meanwhile; "
       "non-trivial: an inner element was removed and a removed one inserted again")
