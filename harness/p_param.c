/* P01..P05: parameters of every numeric type, against exact arithmetic on 128-bit integers and doubles. */
#include "mon.h"
#include "inst_param.h"
#include <math.h>
#include <float.h>
#include <limits.h>

#ifdef __SIZEOF_INT128__
typedef __int128 i128;
#else
typedef _BitInt(128) i128; /* 32-bit programs */
#endif
static const char *const tname[] = {"uint8", "int8", "uint16", "int16", "uint32", "int32", "float", "uint64", "int64", "double"};
static const int         tsize[] = {1, 1, 2, 2, 4, 4, 4, 8, 8, 8};
static const int         tsign[] = {0, 1, 0, 1, 0, 1, 1, 0, 1, 1};
static int               isf(int t) { return t == T_F || t == T_D; }
static unsigned          bits(int t) { return 8 * (unsigned)tsize[t]; }

static i128   ival(int t, raw_t r) { return tsign[t] ? (i128)r.i : (i128)r.u; }
static double fval(int t, raw_t r) { return t == T_F ? (double)r.f : r.d; }
static raw_t  fromi(i128 v) {
    raw_t r;
    r.u = (uint64_t)v;
    return r;
}
static raw_t fromf(int t, double v) {
    raw_t r;
    r.u = 0;
    if (t == T_F)
        r.f = (float)v;
    else
        r.d = v;
    return r;
}
static i128 tmin(int t) { return tsign[t] ? -((i128)1 << (bits(t) - 1)) : 0; }
static i128 tmax(int t) { return tsign[t] ? ((i128)1 << (bits(t) - 1)) - 1 : ((i128)1 << bits(t)) - 1; }
static raw_t getv(int t, const void *p) {
    raw_t r;
    r.u = 0;
    switch (t) {
        case T_U8: r.u = *(const uint8_t *)p; break;
        case T_I8: r.i = *(const int8_t *)p; break;
        case T_U16: r.u = *(const uint16_t *)p; break;
        case T_I16: r.i = *(const int16_t *)p; break;
        case T_U32: r.u = *(const uint32_t *)p; break;
        case T_I32: r.i = *(const int32_t *)p; break;
        case T_F: memcpy(&r.f, p, 4); break;
        default: memcpy(&r.u, p, 8); break;
    }
    return r;
}
static void setv(int t, void *p, raw_t r) {
    if (t == T_F)
        memcpy(p, &r.f, 4);
    else
        memcpy(p, &r.u, tsize[t]); /* little endian host */
}
/* -1 below, 0 inside, 1 above, 2 unordered */
static int side(int t, raw_t v, raw_t lo, raw_t hi) {
    if (isf(t)) {
        double x = fval(t, v);
        return x != x ? 2 : x < fval(t, lo) ? -1 : x > fval(t, hi) ? 1 : 0;
    }
    return ival(t, v) < ival(t, lo) ? -1 : ival(t, v) > ival(t, hi) ? 1 : 0;
}
static const char *show(int t, raw_t r) {
    static _Thread_local char buf[8][48];
    static _Thread_local int  k;
    char                     *b = buf[k++ & 7];
    if (isf(t))
        snprintf(b, 48, "%.9g", fval(t, r));
    else if (tsign[t])
        snprintf(b, 48, "%lld", (long long)r.i);
    else
        snprintf(b, 48, "%llu", (unsigned long long)r.u);
    return b;
}
static raw_t gen(int t, int hostile) {
    if (isf(t)) {
        static const double h[] = {0, -0.0, FLT_MAX, -FLT_MAX, 1e30, -1e30, FLT_MIN, 1e-40, 16777216.0, 0.1, -0.1, 1.0 / 3};
        if (hostile && chance(1, 3))
            return fromf(t, t == T_D && chance(1, 3) ? (chance(1, 2) ? DBL_MAX : -DBL_MAX) : h[rn(12)]);
        return fromf(t, 0.25 * (double)rr(-4000, 4000));
    }
    i128 v;
    switch (rn(4)) {
        case 0: v = (i128)rr(-6, 6); break;
        case 1: v = (i128)rr(-1000, 1000); break;
        default: v = (i128)rbits(bits(t)); break;
    }
    if (tsign[t] && v > tmax(t))
        v -= (i128)1 << bits(t);
    if (v < tmin(t) || v > tmax(t))
        v = tsign[t] ? v % 100 : (v < 0 ? -v : v) & tmax(t);
    return fromi(v);
}
/* a value inside [lo, hi], biased to the ends */
static raw_t inside(int t, raw_t lo, raw_t hi) {
    if (isf(t)) {
        double a = fval(t, lo), b = fval(t, hi);
        switch (rn(4)) {
            case 0: return lo;
            case 1: return hi;
            default: {
                raw_t  r = gen(t, 0);
                double x = fval(t, r);
                return x < a ? lo : x > b ? hi : r;
            }
        }
    }
    i128 a = ival(t, lo), b = ival(t, hi), w = b - a, k;
    k = w > (i128)UINT64_MAX ? (i128)rnd() : (i128)rskew((uint64_t)w);
    if (chance(1, 3))
        k = w - k;
    return fromi(a + k);
}

typedef struct {
    int     t, env;
    decl_t  d;
    raw_t   lo, hi;
    uint8_t *p;
} par_t;

static void gen_limits(par_t *q, int t, int hostile) {
    q->t    = t;
    raw_t a = gen(t, hostile), b = gen(t, hostile);
    if (!isf(t) && chance(1, 5))
        a = fromi(tmin(t));
    if (!isf(t) && chance(1, 5))
        b = fromi(tmax(t));
    if (chance(1, 12))
        b = a;
    if (side(t, a, a, b) > 0 || (isf(t) ? fval(t, a) > fval(t, b) : ival(t, a) > ival(t, b))) {
        raw_t x = a;
        a       = b;
        b       = x;
    }
    q->lo = a;
    q->hi = b;
}
static void gen_par(par_t *q, int t, int hostile, uint8_t *p, uint8_t *live) {
    memset(q, 0, sizeof *q);
    gen_limits(q, t, hostile);
    q->p = p;
    decl_t *d = &q->d;
    d->min = q->lo, d->max = q->hi;
    d->def = chance(1, 10) ? gen(t, hostile) : inside(t, q->lo, q->hi);
    if (isf(t))
        d->step = fromf(t, chance(1, 2) ? 1 : hostile && chance(1, 2) ? fabs(fval(t, gen(t, 1))) : 0.25 * (double)rr(0, 400));
    else
        d->step = chance(1, 2) ? fromi(1) : fromi((i128)rskew((uint64_t)tmax(t)));
    if ((isf(t) || tmin(t) < 0) && chance(1, 8)) /* counts down */
        d->step = isf(t) ? fromf(t, -fval(t, d->step)) : fromi(-ival(t, d->step));
    if (live && chance(1, 3)) { /* live limits; the constants then mean nothing */
        if (chance(3, 4)) {
            d->pmin = live;
            setv(t, live, q->lo);
            d->min = gen(t, 0);
        }
        if (!d->pmin || chance(3, 4)) {
            d->pmax = live + 8;
            setv(t, live + 8, q->hi);
            d->max = gen(t, 0);
        }
    }
    d->form = rn(NFORMS);
    d->lvl  = chance(1, 3) ? 0 : (unsigned)rbits(32);
    d->data = (GEL_PARAMETER_USER_DATA)(uintptr_t)(rnd() & 0x7fffffff);
}

/* ------------------------------------------------------------------ stepping */
/* Judges one step; v is the value before. */
static void judge_step(par_t *q, raw_t v, int mod, int dyadic) {
    int    t = q->t;
    raw_t  g = getv(t, q->p), lo = q->lo, hi = q->hi;
    if (!isf(t)) {
        i128 ex  = ival(t, v) + ival(t, q->d.step) * mod;
        int  out = ex < ival(t, lo) || ex > ival(t, hi);
        raw_t w  = out ? (mod > 0 ? lo : hi) : fromi(ex);
        if (out && ival(t, q->d.step) < 0 && (ival(t, g) == ival(t, lo) || ival(t, g) == ival(t, hi)))
            w = g; /* which of them is unspecified when the step itself is negative */
        CHECK(ival(t, g) == ival(t, w), "step", "%s %s stepped by %d*%s in [%s, %s] became %s, expected %s (exact result %s)", tname[t],
              show(t, v), mod, show(t, q->d.step), show(t, lo), show(t, hi), show(t, g), show(t, w), out ? "outside" : "inside");
        mon_state(mon_mix(t, mon_mix(mod > 0, mon_mix(out, (uint64_t)(ex < tmin(t)) + 2 * (ex > tmax(t))) + 8 * !!q->d.pmin + 16 * !!q->d.pmax)));
        OBS(g.u);
    } else {
        long double ex = (long double)fval(t, v) + (long double)fval(t, q->d.step) * mod, a = fval(t, lo), b = fval(t, hi);
        long double mag = fabsl((long double)fval(t, q->d.step) * mod);
        if (mag < fabsl((long double)fval(t, v)))
            mag = fabsl((long double)fval(t, v));
        long double tol = dyadic ? 0 : mag * (t == T_F ? 1e-6L : 1e-15L) + (t == T_F ? 1e-44L : 0);
        long double y   = fval(t, g);
        int ok_in = ex >= a - tol && ex <= b + tol && y >= ex - tol && y <= ex + tol && y >= a && y <= b;
        int ok_out = (ex < a + tol || ex > b - tol) && (tol > 0 || ex < a || ex > b) &&
                     (y == (mod > 0 ? a : b) || (fval(t, q->d.step) < 0 && (y == a || y == b)));
        CHECK(ok_in || ok_out, "step-float", "%s %s stepped by %d*%s in [%s, %s] became %s, exact result %.17Lg", tname[t], show(t, v),
              mod, show(t, q->d.step), show(t, lo), show(t, hi), show(t, g), ex);
        mon_state(mon_mix(t, mon_mix(mod > 0, ok_out)));
        OBS((long long)(y * 64 > 1e15L ? 1 : y * 64 < -1e15L ? 2 : y * 64));
    }
}
static void p01(void) {
    int      n = 1 + rn(6), wraps = 0, over = 0, lives = 0;
    uint8_t *st = mon_guard(16 * (n + 1)), *lv = mon_guard(16 * n), *img = mon_alloc(16 * (n + 1));
    par_t   *q = mon_zalloc(n * sizeof *q);
    parameter_handle_t *h  = mon_guard(n * sizeof *h);
    int                *dy = mon_zalloc(n * sizeof(int));
    uint8_t            *himg = mon_alloc(n * sizeof *h), *limg = mon_alloc(16 * n);
    for (int i = 0; i < n; i++) {
        int hostile = chance(1, 3);
        gen_par(&q[i], rn(NTYPES), hostile, st + 16 * (i + 1), lv + 16 * i);
        dy[i] = !hostile;
        OP("parameter %d: %s [%s, %s] step %s form %d%s%s", i, tname[q[i].t], show(q[i].t, q[i].lo), show(q[i].t, q[i].hi),
           show(q[i].t, q[i].d.step), q[i].d.form, q[i].d.pmin ? " live min" : "", q[i].d.pmax ? " live max" : "");
        h[i] = par_declare(q[i].t, q[i].p, &q[i].d);
        setv(q[i].t, q[i].p, inside(q[i].t, q[i].lo, q[i].hi));
    }
    for (int it = 0, max = 20 + rn(60); it < max; it++) {
        int    i = rn(n), t = q[i].t, mod;
        par_t *p = &q[i];
        if ((p->d.pmin || p->d.pmax) && chance(1, 6)) {
            par_t x;
            gen_limits(&x, t, !dy[i]);
            if (!p->d.pmin)
                x.lo = p->lo;
            if (!p->d.pmax)
                x.hi = p->hi;
            if (isf(t) ? fval(t, x.lo) <= fval(t, x.hi) : ival(t, x.lo) <= ival(t, x.hi)) {
                p->lo = x.lo, p->hi = x.hi;
                TR("live limits of %d become [%s, %s]", i, show(t, p->lo), show(t, p->hi));
                if (p->d.pmin)
                    setv(t, p->d.pmin, p->lo);
                if (p->d.pmax)
                    setv(t, p->d.pmax, p->hi);
                lives = 1;
            }
        }
        raw_t v = getv(t, p->p);
        if (side(t, v, p->lo, p->hi) != 0 || chance(1, 8)) {
            v = chance(1, 6) ? gen(t, 0) : inside(t, p->lo, p->hi);
            setv(t, p->p, v);
        }
        switch (rn(8)) {
            case 0: mod = chance(1, 2) ? INT32_MAX : INT32_MIN; break;
            case 1: mod = (int)rr(-100, 100); break;
            case 2: mod = (int)(uint32_t)rbits(32); break;
            case 3: mod = chance(1, 4) ? 0 : (int)rr(-2000, 2000); break;
            default: mod = chance(1, 2) ? 1 : -1; break;
        }
        if (isf(t) && dy[i])
            mod %= 2001;
        if (mod == 0 && side(t, v, p->lo, p->hi) != 0)
            mod = 1;
        memcpy(img, st, 16 * (n + 1));
        memcpy(himg, h, n * sizeof *h);
        memcpy(limg, lv, 16 * n);
        OP("step %d (%s) by %d", i, show(t, v), mod);
        int r = parameter_operator(&h[i], mod);
        CHECK_EQ(r, 0, "result", "result of a step");
        raw_t g = getv(t, p->p);
        judge_step(p, v, mod, dy[i]);
        memcpy(img + (p->p - st), p->p, tsize[t]);
        CHECK(mon_same(img, st, 16 * (n + 1)), "other-memory", "stepping %s changed memory around the value", tname[t]);
        CHECK(mon_same(himg, h, n * sizeof *h), "handle-changed", "stepping %s changed a parameter's description", tname[t]);
        CHECK(mon_same(limg, lv, 16 * n), "limits-changed", "stepping %s changed the live limits", tname[t]);
        if (!isf(t)) {
            i128 ex = ival(t, v) + ival(t, p->d.step) * mod;
            over |= ex < tmin(t) || ex > tmax(t);
            wraps |= ival(t, g) != ex;
        }
    }
    CHECK_EQ(parameter_operator(NULL, 1), -1, "null", "stepping no parameter");
    mon_guard_check(st, "values");
    mon_guard_check(lv, "live limits");
    mon_guard_check(h, "parameter table");
    if (wraps && over)
        mon_nontrivial();
    (void)lives;
}
DRIVER("P01", p01,
       "random parameters of every type (constant and live limits, several declaration forms) stepped by extreme and ordinary amounts; "
       "non-trivial: a result wrapped to a limit and an exact result did not fit the type")

/* ------------------------------------------------------------------ tables */
typedef struct {
    unsigned level[2]; /* what the hook sets */
    int     *phase;
    int      runs;
    void    *self;
    int      wrong;
    int      t, limits; /* the hook also sets the constant limits and the default */
    raw_t    lo[2], hi[2], def[2];
} env_t;
static void hook(parameter_handle_t *h, void *arg) {
    env_t *e = arg;
    e->runs++;
    if (h != e->self)
        e->wrong = 1;
    h->access_level = e->level[*e->phase];
    if (e->limits) {
        setv(e->t, (uint8_t *)&h->min, e->lo[*e->phase]);
        setv(e->t, (uint8_t *)&h->max, e->hi[*e->phase]);
        setv(e->t, (uint8_t *)&h->defaultv, e->def[*e->phase]);
    }
}
typedef struct {
    int                 n, phase;
    par_t              *q;
    env_t              *env;
    parameter_handle_t *h;
    uint8_t            *st, *lv, *img;
} tab_t;
static unsigned rnd_level(void) {
    return chance(1, 3) ? 0 : chance(1, 3) ? 1u << rn(32) : chance(1, 6) ? 0x80000000u : (unsigned)rbits(32);
}
#define MAXTAB 330
static tab_t *gen_table(int maxn, int hostile) {
    tab_t *x = mon_zalloc(sizeof *x);
    x->n     = maxn >= 48 && chance(1, 400) ? 200 + rn(MAXTAB - 199) : 1 + rn(chance(1, 6) ? maxn : maxn < 12 ? maxn : 12);
    x->q     = mon_zalloc(x->n * sizeof *x->q);
    x->env   = mon_zalloc(x->n * sizeof *x->env);
    x->st    = mon_guard(16 * (x->n + 1));
    x->lv    = mon_guard(16 * x->n);
    x->img   = mon_alloc(16 * (x->n + 1));
    x->h     = mon_guard(x->n * sizeof *x->h);
    int only = chance(1, 3) ? (int)rn(NTYPES) : -1;
    for (int i = 0; i < x->n; i++) {
        gen_par(&x->q[i], only >= 0 ? only : (int)rn(NTYPES), hostile, x->st + 16 * (i + 1), x->lv + 16 * i);
        x->q[i].d.lvl = rnd_level();
        if (chance(1, 4)) {
            env_t *e  = &x->env[i];
            par_t *q  = &x->q[i], y;
            *e = (env_t){.level = {rnd_level(), rnd_level()}, .phase = &x->phase, .self = &x->h[i], .t = q->t};
            if (!q->d.pmin && !q->d.pmax && chance(1, 2)) {
                gen_limits(&y, q->t, hostile);
                e->limits = 1;
                e->lo[0] = q->lo, e->hi[0] = q->hi, e->def[0] = q->d.def;
                e->lo[1] = y.lo, e->hi[1] = y.hi, e->def[1] = inside(q->t, y.lo, y.hi);
            }
            x->q[i].d.hook = hook;
            x->q[i].d.arg  = &x->env[i];
        }
        OP("%d: %s [%s, %s] default %s level %x%s", i, tname[x->q[i].t], show(x->q[i].t, x->q[i].lo), show(x->q[i].t, x->q[i].hi),
           show(x->q[i].t, x->q[i].d.def), x->q[i].d.lvl, x->q[i].d.hook ? " hook" : "");
        x->h[i] = par_declare(x->q[i].t, x->q[i].p, &x->q[i].d);
        setv(x->q[i].t, x->q[i].p, inside(x->q[i].t, x->q[i].lo, x->q[i].hi));
    }
    return x;
}
static void end_table(tab_t *x) {
    for (int i = 0; i < x->n; i++)
        CHECK(!x->env[i].wrong, "hook-handle", "the runtime hook of parameter %d got another handle", i);
    mon_guard_check(x->st, "values");
    mon_guard_check(x->lv, "live limits");
    mon_guard_check(x->h, "parameter table");
}
static int check_once(tab_t *x, const char *what) {
    int want = 0, nan = 0;
    memcpy(x->img, x->st, 16 * (x->n + 1));
    for (int i = 0; i < x->n; i++) {
        par_t *q = &x->q[i];
        int    s = side(q->t, getv(q->t, q->p), q->lo, q->hi);
        if (s) {
            want++;
            nan |= s == 2;
            raw_t d = q->d.def;
            setv(q->t, x->img + (q->p - x->st), d);
        }
        mon_state(mon_mix(q->t, (uint64_t)(s + 1)));
    }
    OP("%s: check ranges, %d outside", what, want);
    int r = parameter_check_ranges(x->h, x->n);
    CHECK_EQ(r, want, "check-count", "parameters replaced");
    for (int i = 0; i < x->n; i++) {
        par_t *q = &x->q[i];
        raw_t  w = getv(q->t, x->img + (q->p - x->st)), g = getv(q->t, q->p);
        CHECK(mon_same(q->p, x->img + (q->p - x->st), tsize[q->t]), "check-value",
              "parameter %d (%s in [%s, %s], default %s) is %s after the check, expected %s", i, tname[q->t], show(q->t, q->lo),
              show(q->t, q->hi), show(q->t, q->d.def), show(q->t, g), show(q->t, w));
        mon_obs_mem(q->p, tsize[q->t]);
    }
    CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "other-memory", "the check changed memory around the values");
    return want | nan << 16;
}
static void p02(void) {
    tab_t *x     = gen_table(48, chance(1, 3));
    int    fixed = 0, nans = 0, clean = 0;
    for (int it = 0, max = 4 + rn(8); it < max; it++) {
        x->phase = rn(2);
        for (int i = 0; i < x->n; i++) {
            par_t *q = &x->q[i];
            if (x->env[i].limits) /* in force once the hook has run */
                q->lo = x->env[i].lo[x->phase], q->hi = x->env[i].hi[x->phase], q->d.def = x->env[i].def[x->phase];
            if ((q->d.pmin || q->d.pmax) && chance(1, 5)) {
                par_t y;
                gen_limits(&y, q->t, 0);
                if (!q->d.pmin)
                    y.lo = q->lo;
                if (!q->d.pmax)
                    y.hi = q->hi;
                if (isf(q->t) ? fval(q->t, y.lo) <= fval(q->t, y.hi) : ival(q->t, y.lo) <= ival(q->t, y.hi)) {
                    q->lo = y.lo, q->hi = y.hi;
                    if (q->d.pmin)
                        setv(q->t, q->d.pmin, q->lo);
                    if (q->d.pmax)
                        setv(q->t, q->d.pmax, q->hi);
                }
            }
            raw_t v;
            if (!chance(1, 3))
                continue;
            if (isf(q->t)) {
                switch (rn(6)) {
                    case 0: v = fromf(q->t, chance(1, 2) ? (double)NAN : -(double)NAN); break;
                    case 1: v = fromf(q->t, chance(1, 2) ? (double)INFINITY : -(double)INFINITY); break;
                    case 2:
                        v = q->t == T_F ? (raw_t){.f = nextafterf(q->hi.f, INFINITY)} : fromf(T_D, nextafter(q->hi.d, (double)INFINITY));
                        break;
                    case 3:
                        v = q->t == T_F ? (raw_t){.f = nextafterf(q->lo.f, -INFINITY)} : fromf(T_D, nextafter(q->lo.d, -(double)INFINITY));
                        break;
                    default: v = gen(q->t, 1); break;
                }
            } else {
                i128 k = chance(1, 3) ? ival(q->t, q->hi) + 1 : chance(1, 2) ? ival(q->t, q->lo) - 1 : ival(q->t, gen(q->t, 1));
                v      = k < tmin(q->t) || k > tmax(q->t) ? gen(q->t, 0) : fromi(k);
            }
            setv(q->t, q->p, v);
        }
        if (chance(1, 5)) {
            memcpy(x->img, x->st, 16 * (x->n + 1));
            OP("reset to defaults");
            parameter_reset_to_defaults(x->h, x->n);
            for (int i = 0; i < x->n; i++) {
                par_t *q = &x->q[i];
                setv(q->t, x->img + (q->p - x->st), q->d.def);
                CHECK(mon_same(q->p, x->img + (q->p - x->st), tsize[q->t]), "reset", "parameter %d (%s) is %s after the reset, default %s", i,
                      tname[q->t], show(q->t, getv(q->t, q->p)), show(q->t, q->d.def));
            }
            CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "other-memory", "the reset changed memory around the values");
        }
        int r = check_once(x, "first");
        fixed |= r & 0xffff;
        nans |= r >> 16;
        if (chance(1, 2))
            clean |= (check_once(x, "again") & 0xffff) == 0;
    }
    end_table(x);
    if (fixed && nans && clean)
        mon_nontrivial();
    else if (fixed && clean && NTYPES < 7)
        mon_nontrivial();
}
DRIVER("P02", p02,
       "random tables of all types with values inside, just outside, infinite and NaN, hooks and live limits, checked and reset; "
       "non-trivial: a NaN and others were repaired and a later check found nothing")

static void p03(void) {
    tab_t *x = gen_table(48, 0);
    int    hidden = 0, shown = 0, changed = 0;
    for (int it = 0, max = 4 + rn(10); it < max; it++) {
        x->phase    = rn(2);
        unsigned al = chance(1, 6) ? 0 : chance(1, 6) ? 0xFFFFFFFFu : rnd_level();
        int      vis[MAXTAB], nv = 0;
        for (int i = 0; i < x->n; i++) {
            if (!x->q[i].d.hook && chance(1, 10)) { /* the application changes a level itself */
                x->q[i].d.lvl         = rnd_level();
                x->h[i].access_level = x->q[i].d.lvl;
                changed              = 1;
            }
            unsigned l = x->q[i].d.hook ? x->env[i].level[x->phase] : x->q[i].d.lvl;
            if (l == 0 || (l & al))
                vis[nv++] = i;
        }
        hidden |= nv < x->n;
        shown |= nv > 0;
        int len = chance(1, 6) ? (int)rn(x->n + 1) : x->n; /* also part of the table */
        while (nv && vis[nv - 1] >= len)
            nv--;
        if (chance(1, 2)) {
            OP("count with mask %x of %d", al, len);
            CHECK_EQ(parameter_get_count(x->h, len, al), nv, "count", "visible parameters");
        }
        int from = chance(1, 3) ? (int)rn(len + 1) : 0;
        for (int k = from; k < len; k++) {
            OP("handle %d with mask %x", k, al);
            parameter_handle_t *h = parameter_get_handle(x->h, len, k, al);
            long                g = h ? (long)(h - x->h) : -1;
            CHECK_EQ(g, k < nv ? vis[k] : -1, "lookup", "table position of the n-th visible parameter");
            if (h)
                CHECK(parameter_get_user_data(h) == x->q[vis[k]].d.data, "user-data", "user data of the parameter");
        }
        OP("count with mask %x of %d", al, len);
        CHECK_EQ(parameter_get_count(x->h, len, al), nv, "count", "visible parameters");
        mon_state(mon_mix(len, nv));
    }
    end_table(x);
    if (hidden && shown && changed)
        mon_nontrivial();
}
DRIVER("P03", p03,
       "random tables with access levels changed by hooks and by the application, counted and looked up under random masks; non-trivial: "
       "parameters were hidden and shown and levels changed");

static void fmt_for(int t, char *f, size_t n) {
    static const char *const spec[10][3] = {
        {"%u", "%03u", "%x"}, {"%d", "%4d", "%+d"}, {"%u", "%05u", "%X"}, {"%d", "%-6d|", "%+d"}, {"%u", "%010u", "%x"},
        {"%d", "%11d", "%+d"}, {"%.3f", "%g", "%08.2f"}, {"%llu", "%020llu", "%llx"}, {"%lld", "%+lld", "%-20lld|"}, {"%.3f", "%g", "%e"}};
    const char *pre = chance(1, 2) ? "" : "val ", *mid = spec[t][rn(3)], *post = chance(1, 2) ? "" : " C";
    snprintf(f, n, "%s%s%s", pre, mid, post);
}
static int fmt_val(int t, raw_t v, char *out, size_t n, const char *f) {
    switch (t) {
        case T_U8:
        case T_U16:
        case T_U32: return snprintf(out, n, f, (unsigned)v.u);
        case T_I8:
        case T_I16:
        case T_I32: return snprintf(out, n, f, (int)v.i);
        case T_F: return snprintf(out, n, f, (double)v.f);
        case T_U64: return snprintf(out, n, f, (unsigned long long)v.u);
        case T_I64: return snprintf(out, n, f, (long long)v.i);
        default: return snprintf(out, n, f, v.d);
    }
}
static void p04(void) {
    tab_t *x   = gen_table(16, chance(1, 3));
    int    neg = 0, big = 0, refused = 0;
    for (int i = 0; i < x->n; i++) {
        par_t *q = &x->q[i];
        int    t = q->t;
        raw_t  v = chance(1, 2) ? getv(t, q->p) : gen(t, 1);
        setv(t, q->p, v);
        memcpy(x->img, x->st, 16 * (x->n + 1));
        OP("conversions of %d: %s %s", i, tname[t], show(t, v));
        if (!isf(t)) {
            i128 k = ival(t, v);
            neg |= k < 0;
            big |= k > 0x7fffffff;
            if (k <= LONG_MAX)
                CHECK_EQ(parameter_to_long(&x->h[i]), (long)k, "to-long", "value as long");
            if (k >= 0) {
                CHECK_EQ(parameter_to_index(&x->h[i]), (size_t)k, "to-index", "value as index");
                CHECK_EQ(parameter_to_bool(&x->h[i]), k != 0, "to-bool", "value as boolean");
            } else if (tsize[t] <= 4) { /* not judged, but must not depend on the build */
                OBS((uint32_t)parameter_to_index(&x->h[i]));
                OBS(parameter_to_bool(&x->h[i]) != 0);
            }
            i128 w = ival(t, q->hi) - ival(t, q->lo) + 1;
            if (w <= (i128)SIZE_MAX)
                CHECK_EQ(parameter_get_total_values(&x->h[i]), (size_t)w, "total-values", "selectable values");
        } else {
            double lo = fval(t, q->lo), hi = fval(t, q->hi);
            if (lo == floor(lo) && hi == floor(hi) && fabs(lo) < 1e6 && fabs(hi) < 1e6 && lo <= hi)
                CHECK_EQ(parameter_get_total_values(&x->h[i]), (size_t)(hi - lo + 1), "total-values", "selectable values of a real parameter");
        }
        if (!isf(t) || fabs(fval(t, v)) < 1e30) {
            char fmt[64], want[128];
            fmt_for(t, fmt, sizeof fmt);
            int   len = fmt_val(t, v, want, sizeof want, fmt);
            char *out = mon_guard(len + 1);
            OP("text with format '%s'", fmt);
            parameter_to_string_format(&x->h[i], out, fmt);
            CHECK(!memcmp(out, want, len + 1), "text", "text of %s %s with '%s' is '%.*s', expected '%s'", tname[t], show(t, v), fmt, len,
                  out, want);
            mon_obs_mem(out, len);
            mon_guard_free(out, "text buffer");
        }
        CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "conversion-writes", "a conversion changed the stored values");
        mon_state(mon_mix(t, (uint64_t)(!isf(t) && ival(t, v) < 0)));
    }
    for (int it = 0, max = 6 + rn(20); it < max; it++) {
        int    i = rn(x->n), j = rn(x->n);
        par_t *q = &x->q[i];
        raw_t  v = gen(q->t, 1);
        if (isf(q->t) && chance(1, 6))
            v = fromf(q->t, chance(1, 2) ? (double)NAN : (double)INFINITY);
        setv(q->t, q->p, v);
        memcpy(x->img, x->st, 16 * (x->n + 1));
        if (chance(1, 2)) { /* copy between parameters of the table, of the same or another type */
            par_t *e = &x->q[j];
            OP("copy %d (%s) to %d (%s)", i, tname[q->t], j, tname[e->t]);
            int r = parameter_copy_value(&x->h[j], &x->h[i]);
            CHECK_EQ(r, q->t == e->t ? 0 : -1, "copy-result", "result of a copy");
            if (q->t == e->t)
                memmove(x->img + (e->p - x->st), q->p, tsize[q->t]);
            else
                refused = 1;
            CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "copy", "after copying %s %s to %s the values differ from the expected ones",
                  tname[q->t], show(q->t, v), tname[e->t]);
        } else { /* clone onto new storage of exactly the right size */
            uint8_t           *buf = mon_guard(tsize[q->t]);
            parameter_handle_t *c  = mon_guard(sizeof *c);
            int                how = rn(2);
            OP("clone %d (%s %s) by %s", i, tname[q->t], show(q->t, v), how ? "clone" : "clone_with_buffer");
            if (how)
                parameter_clone(c, &x->h[i], buf);
            else
                *c = parameter_clone_with_buffer(&x->h[i], buf);
            CHECK(!memcmp(buf, q->p, tsize[q->t]), "clone-value", "the clone of %s %s holds %s", tname[q->t], show(q->t, v),
                  show(q->t, getv(q->t, buf)));
            CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "clone-writes", "cloning changed the stored values");
            CHECK(parameter_get_user_data(c) == q->d.data, "clone-data", "user data of a clone");
            /* the clone works on its own storage, with the same limits */
            setv(q->t, buf, inside(q->t, q->lo, q->hi));
            par_t cq = *q;
            raw_t b  = getv(q->t, buf);
            cq.p     = buf;
            int mod  = chance(1, 2) ? 1 : -1;
            OP("step the clone");
            parameter_operator(c, mod);
            judge_step(&cq, b, mod, 0);
            CHECK(mon_same(x->img, x->st, 16 * (x->n + 1)), "clone-aliases", "stepping the clone changed the original");
            mon_guard_free(buf, "clone storage");
            mon_guard_check(c, "clone");
        }
    }
    OP("copies without a partner");
    CHECK_EQ(parameter_copy_value(NULL, &x->h[0]), -1, "copy-null", "copy to nothing");
    CHECK_EQ(parameter_copy_value(&x->h[0], NULL), -1, "copy-null", "copy from nothing");
    end_table(x);
    if (neg && (big || NTYPES < 7) && refused)
        mon_nontrivial();
}
DRIVER("P04", p04,
       "random values of every type converted to long, index, boolean, text and counts, copied between parameters and cloned; non-trivial: "
       "negative and large values were converted and a copy between types refused");

/* ------------------------------------------------------------------ declarations */
static int next_up(int t, raw_t v, int dir, raw_t *out) {
    if (isf(t)) {
        *out = t == T_F ? (raw_t){.f = nextafterf(v.f, dir > 0 ? INFINITY : -INFINITY)}
                        : fromf(T_D, nextafter(v.d, dir > 0 ? (double)INFINITY : -(double)INFINITY));
        return 1;
    }
    i128 k = ival(t, v) + dir;
    if (k < tmin(t) || k > tmax(t))
        return 0;
    *out = fromi(k);
    return 1;
}
static void expect(parameter_handle_t *h, par_t *q, raw_t v, const char *what) {
    int s = side(q->t, v, q->lo, q->hi);
    setv(q->t, q->p, v);
    OP("check %s %s", what, show(q->t, v));
    CHECK_EQ(parameter_check_ranges(h, 1), s != 0, "range", what);
    raw_t w = s ? q->d.def : v, g = getv(q->t, q->p);
    CHECK(isf(q->t) ? fval(q->t, g) == fval(q->t, w) : ival(q->t, g) == ival(q->t, w), "range-value",
          "%s: %s %s declared in [%s, %s] with default %s became %s", what, tname[q->t], show(q->t, v), show(q->t, q->lo),
          show(q->t, q->hi), show(q->t, q->d.def), show(q->t, g));
    OBS(g.u);
}
static void probe(parameter_handle_t *h, par_t *q, int dyadic) {
    raw_t x;
    int   t = q->t;
    expect(h, q, q->lo, "minimum");
    expect(h, q, q->hi, "maximum");
    if (next_up(t, q->lo, -1, &x))
        expect(h, q, x, "just below the minimum");
    if (next_up(t, q->hi, 1, &x))
        expect(h, q, x, "just above the maximum");
    if (next_up(t, q->lo, 1, &x))
        expect(h, q, x, "just above the minimum");
    setv(t, q->p, q->lo);
    OP("reset");
    parameter_reset_to_defaults(h, 1);
    raw_t g = getv(t, q->p);
    CHECK(isf(t) ? fval(t, g) == fval(t, q->d.def) : ival(t, g) == ival(t, q->d.def), "default", "%s declared with default %s was reset to %s",
          tname[t], show(t, q->d.def), show(t, g));
    for (int k = 0; k < 6; k++) {
        raw_t v   = k == 0 ? q->hi : k == 1 ? q->lo : inside(t, q->lo, q->hi);
        int   mod = k == 0 ? 1 : k == 1 ? -1 : (int)rr(1, 3) * (chance(1, 2) ? 1 : -1);
        setv(t, q->p, v);
        OP("step %s by %d", show(t, v), mod);
        parameter_operator(h, mod);
        judge_step(q, v, mod, dyadic);
    }
}
static void p05(void) {
    if (chance(1, 3)) {
        uint8_t            *st = mon_guard(16 * NLIT);
        parameter_handle_t *h  = mon_guard(NLIT * sizeof *h);
        lit_t              *sp = mon_zalloc(NLIT * sizeof *sp);
        int                 n  = par_literals(h, sp, st);
        for (int i = 0; i < n; i++) {
            par_t q;
            memset(&q, 0, sizeof q);
            q.t      = sp[i].type;
            q.lo     = sp[i].min;
            q.hi     = sp[i].max;
            q.d.def  = sp[i].def;
            q.d.step = sp[i].step;
            q.p      = st + 16 * i;
            OP("literal declaration %d: %s [%s, %s] default %s step %s", i, tname[q.t], show(q.t, q.lo), show(q.t, q.hi), show(q.t, q.d.def),
               show(q.t, q.d.step));
            probe(&h[i], &q, 0);
        }
        mon_guard_check(st, "values");
        mon_guard_check(h, "parameter table");
    } else {
        uint8_t            *st = mon_guard(32);
        parameter_handle_t *h  = mon_guard(sizeof *h);
        int                 wide = 0, neg = 0;
        for (int it = 0; it < 12; it++) {
            par_t q;
            int   hostile = chance(1, 3);
            gen_par(&q, rn(NTYPES), hostile, st + 16, NULL);
            OP("declaration: %s [%s, %s] default %s step %s form %d", tname[q.t], show(q.t, q.lo), show(q.t, q.hi), show(q.t, q.d.def),
               show(q.t, q.d.step), q.d.form);
            *h = par_declare(q.t, q.p, &q.d);
            probe(h, &q, !hostile);
            mon_state(mon_mix(q.t, q.d.form + 16));
            wide |= !isf(q.t) && (ival(q.t, q.lo) == tmin(q.t) || ival(q.t, q.hi) == tmax(q.t));
            neg |= !isf(q.t) && ival(q.t, q.lo) < 0;
        }
        mon_guard_check(st, "value");
        mon_guard_check(h, "handle");
        if (wide && neg)
            mon_nontrivial();
        return;
    }
    mon_nontrivial();
}
DRIVER("P05", p05,
       "declarations of every type through every macro form, with runtime and literal limits (negative, full-width), probed at and "
       "around their limits; non-trivial: a full-width limit and a negative one were declared (every case of the literal table)");
