/* N01, N02: the page manager, with pages whose callbacks report to a monitor that knows the whole navigation. */
#include "mon.h"
#include "pagemanager/page_manager.h"

#define NSLOT 24
#define DEPTH PMAN_NAVIGATION_DEPTH
#ifdef PMAN_POINTERS
typedef struct { int tag, serial; } blk_t;
#endif

typedef struct {
    int   slot, id;
    void *extra;
    int   alive;                        /* entered and not yet gone for good */
    int   creates, opens, closes, destroys;
    int   wc, wo, wcl, wd;              /* expected counts */
    pman_page_data_t data;
} inst_t;
typedef struct {
    int          property;              /* 1 or 2 */
    page_manager_t *pm;
    pman_page_t  tmpl[NSLOT];
    int          id[NSLOT];             /* the identifiers given to them */
    inst_t      *in;
    int          n;                     /* instances so far */
    int          cur, stack[DEPTH + 1], depth; /* indices of instances; cur -1: no page */
    int          entering;              /* instance being entered by the current call */
    pman_model_t model;
    int          opened;                /* instance open according to the callbacks, -1 */
    int          views, events;         /* update / event callbacks during the call */
    int          view_inst;
    long         view, code;
    int          incall;
    pman_event_t event;
    long         seq;
} st_t;
static const char *const cbname[] = {"create", "open", "close", "destroy", "update", "process_event"};

static int same_data(pman_page_data_t a, pman_page_data_t b) { return a == b; }
/* Which live instance of the slot does the callback speak of? Its data tell, or there is only one. */
static int whose(st_t *s, int slot, pman_page_data_t data, int cb) {
    int found = -1, any = -1, dead = -1;
    for (int i = s->n - 1; i >= 0; i--) {
        inst_t *p = &s->in[i];
        if (p->slot != slot)
            continue;
        any = i;
        if (!same_data(p->data, data))
            continue;
        if (p->destroys == 0 && p->alive) {
            found = i;
            break;
        }
        if (dead < 0)
            dead = i;
    }
    if (found >= 0)
        return found;
    CHECK(any >= 0, "unknown-page", "%s was called for a page that was never entered", cbname[cb]);
    CHECK(dead >= 0, "wrong-data", "%s of page %d got data its creation did not return", cbname[cb], s->id[slot]);
    mon_fail("dead-page", "%s was called for page %d (instance %d), which had already left the navigation", cbname[cb],
             s->id[slot], dead);
}
#define ST st_t *s = MON->user
static void in_call(st_t *s, int cb) {
    CHECK(s->incall, "spurious-callback", "%s was called outside any call of the page manager", cbname[cb]);
}
static void model_is(st_t *s, pman_model_t m, int cb) { CHECK(m == s->model, "model", "%s got another model", cbname[cb]); }

static pman_page_data_t do_create(int slot, pman_model_t m, void *extra) {
    ST;
    in_call(s, 0);
    model_is(s, m, 0);
    CHECK(s->entering >= 0 && s->in[s->entering].slot == slot, "create-other", "create was called for page %d, which is not being entered",
          s->id[slot]);
    inst_t *p = &s->in[s->entering];
    CHECK(p->creates == 0, "created-twice", "page %d was created twice for one entry", p->id);
    CHECK(p->opens == 0, "opened-before-create", "page %d was opened before it was created", p->id);
    CHECK(extra == p->extra, "extra", "create of page %d got another extra argument", p->id);
    p->creates = 1;
#ifdef PMAN_POINTERS
    blk_t *b;
    ALLOCATES(b = mon_lib_malloc(sizeof *b)); /* the user's own */
    b->tag    = 0x51ab;
    b->serial = s->entering;
    p->data   = b;
#else
    p->data = 1000 + s->entering;
#endif
    TR("    create page %d (instance %d)", p->id, s->entering);
    return p->data;
}
static inst_t *named(st_t *s, int slot, pman_page_data_t d, int cb) {
    in_call(s, cb);
    int     i = whose(s, slot, d, cb);
    inst_t *p = &s->in[i];
    TR("    %s page %d (instance %d)", cbname[cb], p->id, i);
    CHECK(!s->tmpl[slot].create || p->creates == 1, "before-create", "%s of page %d before its creation", cbname[cb], p->id);
    CHECK(p->destroys == 0, "after-destroy", "%s of page %d after its destruction", cbname[cb], p->id);
#ifdef PMAN_POINTERS
    if (d)
        CHECK(((blk_t *)d)->tag == 0x51ab && ((blk_t *)d)->serial == i, "wrong-data", "%s of page %d got damaged data", cbname[cb], p->id);
#endif
    return p;
}
static void do_open(int slot, pman_model_t m, pman_page_data_t d) {
    ST;
    inst_t *p = named(s, slot, d, 1);
    model_is(s, m, 1);
    CHECK(s->opened < 0, "two-open", "page %d is opened while page %d is open", p->id, s->opened < 0 ? 0 : s->in[s->opened].id);
    p->opens++;
    CHECK(!s->tmpl[slot].close || p->opens == p->closes + 1, "open-twice", "page %d was opened again without being closed", p->id);
    if (s->tmpl[slot].close)
        s->opened = (int)(p - s->in);
}
static void do_close(int slot, pman_page_data_t d) {
    ST;
    inst_t *p = named(s, slot, d, 2);
    p->closes++;
    CHECK(!s->tmpl[slot].open || p->opens == p->closes, "close-unopened", "page %d was closed while not open", p->id);
    if (s->opened == (int)(p - s->in))
        s->opened = -1;
}
static void do_destroy(int slot, pman_page_data_t d, void *extra) {
    ST;
    inst_t *p = named(s, slot, d, 3);
    CHECK(extra == p->extra, "extra", "destroy of page %d got another extra argument", p->id);
    CHECK(!(s->tmpl[slot].open && s->tmpl[slot].close) || p->opens == p->closes, "destroy-open", "page %d was destroyed while open", p->id);
    CHECK(p->wd == 1, "destroy-early", "page %d was destroyed although the navigation can still return to it", p->id);
    p->destroys++;
#ifdef PMAN_POINTERS
    if (d)
        mon_lib_free(d);
#endif
}
static long mkview(st_t *s) { return ++s->seq; }
#ifdef PMAN_VOID_VIEW /* the template's own configuration: views are not values */
typedef int view_t;
#define VIEW(expr)    ((expr), 0)
#define SAME(v, want) ((void)(v), 1)
#define NOVIEW(v)     ((void)(v), 1)
#else
typedef pman_view_t view_t;
#define VIEW(expr)    (expr)
#define SAME(v, want) ((v) == (pman_view_t)(want))
#define NOVIEW(v)     ((v) == PMAN_VIEW_NULL)
#endif
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
static view_t do_update(int slot, pman_model_t m, pman_page_data_t d) {
    ST;
    inst_t *p = named(s, slot, d, 4);
    model_is(s, m, 4);
    CHECK(!(s->tmpl[slot].open && s->tmpl[slot].close) || p->opens == p->closes + 1, "update-closed", "page %d was updated while not open", p->id);
    s->views++;
    s->view_inst = (int)(p - s->in);
    s->view      = mkview(s);
    return (view_t)s->view;
}
#endif
static pman_message_t do_event(int slot, pman_model_t m, pman_page_data_t d, pman_event_t e) {
    ST;
    inst_t *p = named(s, slot, d, 5);
    model_is(s, m, 5);
    CHECK(e == s->event, "event", "page %d got another event", p->id);
    s->events++;
    s->view_inst = (int)(p - s->in);
    s->code      = mkview(s);
#ifdef PMAN_POINTERS
    return (pman_message_t){(int)s->code, s->code * 3};
#else
    return (pman_message_t)s->code;
#endif
}
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#ifdef PMAN_VOID_VIEW
#define UPD(n) static void up##n(pman_model_t m, pman_page_data_t d) { do_update(n, m, d); }
#else
#define UPD(n) static pman_view_t up##n(pman_model_t m, pman_page_data_t d) { return do_update(n, m, d); }
#endif
#define UPDP(n) up##n,
#else
#define UPD(n)
#define UPDP(n)
#endif
#define SLOT(n)                                                                                                        \
    static pman_page_data_t cr##n(pman_model_t m, void *e) { return do_create(n, m, e); }                              \
    static void             de##n(pman_page_data_t d, void *e) { do_destroy(n, d, e); }                                \
    static void             op##n(pman_model_t m, pman_page_data_t d) { do_open(n, m, d); }                            \
    static void             cl##n(pman_page_data_t d) { do_close(n, d); }                                              \
    static pman_message_t   ev##n(pman_model_t m, pman_page_data_t d, pman_event_t e) { return do_event(n, m, d, e); } \
    UPD(n)
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) \
    X(20) X(21) X(22) X(23)
ALL(SLOT)
#define FN(p, n) p##n
static void fill_page(pman_page_t *p, int slot, unsigned mask) {
    switch (slot) {
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define SETUP_UP(n) p->update = mask & 16 ? up##n : NULL;
#else
#define SETUP_UP(n)
#endif
#define CASE(n)                                                                                                        \
    case n:                                                                                                            \
        p->create  = mask & 1 ? cr##n : NULL;                                                                          \
        p->destroy = mask & 2 ? de##n : NULL;                                                                          \
        p->open    = mask & 4 ? op##n : NULL;                                                                          \
        p->close   = mask & 8 ? cl##n : NULL;                                                                          \
        SETUP_UP(n)                                                                                                    \
        p->process_event = ev##n;                                                                                      \
        break;
        ALL(CASE)
    }
}
static void begin(st_t *s, int entering) {
    s->incall   = 1;
    s->views    = 0;
    s->events   = 0;
    s->entering = entering;
    s->view_inst = -1;
#ifdef PMAN_POINTERS
    s->model = (void *)(uintptr_t)(0x1000 + rn(1000));
#else
    s->model = (int)rnd();
#endif
}
/* the view the navigation returned must be the one the (new) current page's update returned */
static void judge_view(st_t *s, view_t v, int moved) {
    if (s->property != 2)
        return;
    CHECK(s->events == 0, "stray-event", "a navigation delivered an event");
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    if (moved && s->cur >= 0 && s->tmpl[s->in[s->cur].slot].update) {
        CHECK(s->views > 0, "no-update", "the new current page %d was not updated", s->in[s->cur].id);
        CHECK(s->view_inst == s->cur, "updated-other", "page %d was updated, the current one is %d", s->in[s->view_inst].id, s->in[s->cur].id);
        CHECK(SAME(v, s->view), "view", "the view returned is not the one of the current page's update");
        OBS(s->view);
    } else {
        CHECK(s->views == 0, "stray-update", "a page was updated although the current page has no update or did not change");
        CHECK(NOVIEW(v), "view", "a view was returned although no update was called");
    }
#else
    (void)moved;
    CHECK(NOVIEW(v), "view", "a view was returned although no page can be updated");
#endif
}
/* after the call: every instance saw exactly the callbacks its fate requires */
static void judge(st_t *s) {
    s->incall = 0;
    for (int i = 0; i < s->n; i++) {
        inst_t      *p = &s->in[i];
        pman_page_t *t = &s->tmpl[p->slot];
        if (s->property == 1) {
            CHECK(!t->create || p->creates == p->wc, "creations", "page %d (instance %d) was created %d times, expected %d", p->id, i, p->creates, p->wc);
            CHECK(!t->open || p->opens == p->wo, "opens", "page %d (instance %d) was opened %d times, expected %d", p->id, i, p->opens, p->wo);
            CHECK(!t->close || p->closes == p->wcl, "closes", "page %d (instance %d) was closed %d times, expected %d", p->id, i, p->closes, p->wcl);
            CHECK(!t->destroy || p->destroys == p->wd, "destroys", "page %d (instance %d) was destroyed %d times, expected %d", p->id, i, p->destroys, p->wd);
        }
        if (p->wd)
            p->alive = 0;
    }
    mon_state(mon_mix(s->depth, mon_mix(s->cur >= 0, s->n > 20 ? 20 : s->n)));
    OBS(s->seq);
}
static void gone(st_t *s, int i) { s->in[i].wd = 1; }
static int enter(st_t *s, int slot, void *extra) {
    int     i = s->n++;
    inst_t *p = &s->in[i];
    p->slot   = slot;
    p->id     = s->id[slot];
    p->extra  = extra;
    p->alive  = 1;
    p->data   = PMAN_DATA_NULL;
    p->wc = p->wo = 1;
    return i;
}
static void deliver(st_t *s) {
    if (s->cur < 0)
        return;
    int want = s->cur;
    begin(s, -1);
#ifdef PMAN_POINTERS
    s->event = (const char *)(uintptr_t)(0x2000 + rn(5000));
#else
    s->event = (int)rnd();
#endif
    OP("event (current page %d)", s->in[want].id);
    pman_message_t m = pman_process_page_event(s->pm, s->model, s->event);
    CHECK(s->events == 1, "event-count", "an event was processed %d times", s->events);
    CHECK(s->view_inst == want, "event-page", "page %d (instance %d) got the event, the current one is %d (instance %d)",
          s->view_inst < 0 ? -1 : s->in[s->view_inst].id, s->view_inst, s->in[want].id, want);
#ifdef PMAN_POINTERS
    CHECK(m.code == (int)s->code && m.extra == s->code * 3, "message", "the message returned is not the page's");
#else
    CHECK(m == (pman_message_t)s->code, "message", "the message returned is not the page's");
#endif
    CHECK(s->views == 0, "stray-update", "an event updated a page");
    judge(s);
    if (chance(1, 2)) {
        begin(s, -1);
        OP("update (current page %d)", s->in[want].id);
        view_t v = VIEW(pman_page_update(s->pm, s->model));
        judge_view(s, v, 1);
        judge(s);
    }
}
/* identifiers that agree in most of their bits */
static int spread(int k) {
    static const unsigned b[] = {0, 0x100, 0x10000, 0x1000000, 0x7FFFFF00, 0x80000000, 0xFFFFFF00, 0x200, 0x8000};
    return (int)((unsigned)k + b[rn(sizeof b / sizeof *b)]);
}
static void run(int property) {
    st_t *s     = mon_zalloc(sizeof *s);
    MON->user   = s;
    s->property = property;
    s->pm       = mon_guard(sizeof *s->pm);
    s->cur = s->opened = -1;
    int max = mon_long(20 + rn(120)), plain = chance(1, 3), wide = chance(1, 3);
    max = max > 5000 ? 5000 : max; /* every page takes memory of the monitor */
    int descend = DEPTH > 50 && chance(1, 30); /* a deep stack is reached by going down on purpose */
    if (descend)
        max = 2 * DEPTH + rn(200);
    s->in = mon_zalloc((max + 2) * sizeof *s->in);
    for (int k = 0; k < NSLOT; k++) {
        s->tmpl[k].id = s->id[k] = wide ? spread(chance(1, 2) ? k : (int)rn(6)) : chance(1, 2) ? k : (int)rn(6);
        s->tmpl[k].data  = (pman_page_data_t)(uintptr_t)(chance(1, 2) ? 0x3333 : 0x7777); /* means nothing */
        s->tmpl[k].extra = (void *)(uintptr_t)0x5555;
        fill_page(&s->tmpl[k], k, plain || chance(1, 2) ? 31 : rn(32));
    }
    OP("init");
    pman_init(s->pm);
    int deep = 0, resets = 0, failed = 0, rebases = 0, backs = 0, bottom = 0, bias = rn(3);
    for (int it = 0; it < max; it++) {
        int op = rn(20), slot = rn(NSLOT);
        if (rn(20) == 0)
            bias = rn(3);
        if (bias == 1 && op >= 8 && op < 14)
            op = 0;
        if (bias == 2 && op < 5)
            op = 9;
        if (descend)
            op = chance(1, 60) ? 7 : rn(6);
        if (s->depth == DEPTH)
            descend = 0;
        /* pages without creation have no data to tell them apart: keep one of each */
        for (int tries = 0; tries < 50; tries++) {
            int busy = 0;
            if (!s->tmpl[slot].create)
                for (int i = 0; i < s->n; i++)
                    busy |= s->in[i].slot == slot && s->in[i].alive;
            if (!busy)
                break;
            slot = (slot + 1) % NSLOT;
            if (tries == 49)
                op = 8;
        }
        void       *extra = chance(1, 3) ? NULL : (void *)(uintptr_t)(0x100 + rn(1000));
        view_t      v;
        if (op < 6) {
            if (s->depth == DEPTH && s->cur >= 0)
                continue; /* the documented limit */
            int with = chance(1, 2), i = enter(s, slot, with ? extra : NULL);
            if (s->cur >= 0) {
                s->in[s->cur].wcl++;
                s->stack[s->depth++] = s->cur;
            }
            s->cur = i;
            begin(s, i);
            OP("change to page %d%s (depth %d)", s->in[i].id, with ? " with extra" : "", s->depth);
            v = VIEW(with ? pman_change_page_extra(s->pm, s->model, s->tmpl[slot], extra) : pman_change_page(s->pm, s->model, s->tmpl[slot]));
            judge_view(s, v, 1);
            judge(s);
            deep |= s->depth == DEPTH;
        } else if (op < 8) {
            int with = chance(1, 2), i = enter(s, slot, with ? extra : NULL);
            if (s->cur >= 0) {
                s->in[s->cur].wcl++;
                gone(s, s->cur);
            }
            s->cur = i;
            begin(s, i);
            OP("swap to page %d%s (depth %d)", s->in[i].id, with ? " with extra" : "", s->depth);
            v = VIEW(with ? pman_swap_page_extra(s->pm, s->model, s->tmpl[slot], extra) : pman_swap_page(s->pm, s->model, s->tmpl[slot]));
            judge_view(s, v, 1);
            judge(s);
        } else if (op < 13) {
            if (s->cur < 0)
                continue; /* needs a page */
            int moved = s->depth > 0;
            if (moved) {
                s->in[s->cur].wcl++;
                gone(s, s->cur);
                s->cur = s->stack[--s->depth];
                s->in[s->cur].wo++;
                backs = 1;
            } else
                bottom = 1;
            begin(s, -1);
            OP("back (to %d)", moved ? s->in[s->cur].id : -1);
            v = VIEW(pman_back(s->pm, s->model));
            judge_view(s, v, moved);
            judge(s);
        } else if (op < 15) {
            int id = s->depth && chance(3, 4) ? s->in[s->stack[rn(s->depth)]].id : chance(1, 2) && s->cur >= 0 ? s->in[s->cur].id : (int)rn(NSLOT);
            if (chance(1, 12))
                id = -1 - (int)rn(5);
            else if (wide && chance(1, 3))
                id = (int)((unsigned)id ^ 1u << rn(32));
            if (s->cur >= 0) {
                s->in[s->cur].wcl++;
                gone(s, s->cur);
            }
            s->cur = -1;
            while (s->depth) {
                int i = s->stack[--s->depth];
                if (s->in[i].id == id) {
                    s->cur = i;
                    s->in[i].wo++;
                    break;
                }
                gone(s, i);
            }
            begin(s, -1);
            uint8_t found = 77;
            OP("reset to page %d (%s)", id, s->cur >= 0 ? "present" : "absent");
            v = VIEW(pman_reset_to_page(s->pm, s->model, id, &found));
            if (property == 2)
                CHECK_EQ(found, s->cur >= 0, "found", "page reported as found");
            judge_view(s, v, s->cur >= 0);
            judge(s);
            resets |= s->cur >= 0;
            failed |= s->cur < 0;
        } else if (op == 15) {
            int with = chance(1, 2), i = enter(s, slot, with ? extra : NULL);
            if (s->cur >= 0) {
                s->in[s->cur].wcl++;
                gone(s, s->cur);
            }
            while (s->depth)
                gone(s, s->stack[--s->depth]);
            s->cur = i;
            begin(s, i);
            OP("rebase to page %d%s", s->in[i].id, with ? " with extra" : "");
            v = VIEW(with ? pman_rebase_page_extra(s->pm, s->model, s->tmpl[slot], extra) : pman_rebase_page(s->pm, s->model, s->tmpl[slot]));
            judge_view(s, v, 1);
            judge(s);
            rebases = 1;
        }
        if (property == 2 || chance(1, 4))
            deliver(s);
        mon_guard_check(s->pm, "page manager");
    }
    if (deep && resets && failed && rebases && backs && bottom)
        mon_nontrivial();
}
static void n01(void) { run(1); }
static void n02(void) { run(2); }
DRIVER("N01", n01,
       "random navigations (change, swap, back, reset, rebase) over pages with and without each callback; every callback of every page "
       "instance judged as it happens and counted after each call; non-trivial: full depth, back at the bottom, found and failed resets "
       "and a rebase all happened")
DRIVER("N02", n02,
       "the same navigations with events and updates delivered after every step; non-trivial: full depth, back at the bottom, found and "
       "failed resets and a rebase all happened")
