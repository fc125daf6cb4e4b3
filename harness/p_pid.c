/* G01: the PID controller against the formula over the recorded history. Every quantity is chosen so that the
   products and sums are exact in single precision, so the expected values have no rounding to argue about. */
#include "mon.h"
#include "pid/pid.h"

typedef pid_control_type_t ct;
typedef pid_output_type_t  ot;
#define N GEL_PID_INTEGRAL_HISTORY_SIZE
#define D GEL_PID_DERIVATIVE_DELTA
#define OUT_FLOAT ((ot)0.5 != 0)
#define CTL_FLOAT ((ct)0.5 != 0)
#define MAXR 4096
/* bound of inputs and set-points: (N+3) * 2V * 4 * 40 sixteenths stay below 2^24 */
#define VMAX ((1 << 24) / ((N + 3) * 320))

typedef struct {
    pid_ctrl_t pid;
    /* model */
    double kp, ki, kd, in, sp;
    double rec[MAXR];  /* recorded (after thresholds) errors */
    size_t nrec, clear; /* integral entries count from `clear` on */
    double red[MAXR];  /* error of each reading when it was the current one */
    size_t spchg[MAXR]; /* set-point generation of each reading */
    size_t nred, gen;
    int    sign, autoclear, lo_en, hi_en, d_en;
    double lo, hi, dth;
    int    clears, cut_i, cut_d;
} st_t;

static ot cut(double v) { return OUT_FLOAT ? (ot)v : (ot)(long long)v; }
static double rnd_k(void) {
    switch (rn(6)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return 0.25 * (double)rr(0, 3);
        case 3: return -0.25 * (double)rr(0, 20);
        default: return 0.25 * (double)rr(0, 40);
    }
}
static double rnd_val(double around) {
    double v;
    switch (rn(6)) {
        case 0: v = around; break;
        case 1: v = around + (double)rr(-3, 3); break;
        case 2: v = (double)rr(-VMAX, VMAX); break;
        case 3: v = (double)rr(-30, 30); break;
        default: v = around + (double)rr(-60, 60); break;
    }
    if (CTL_FLOAT && OUT_FLOAT && chance(1, 2))
        v += 0.25 * (double)rr(-3, 3);
    return v > VMAX ? VMAX : v < -VMAX ? -VMAX : v;
}
static double err(st_t *s) { return s->sp - s->in; }

static double want_i(st_t *s) {
    double sum = 0;
    for (size_t k = 0; k < N && k < s->nrec - s->clear; k++)
        sum += s->rec[s->nrec - 1 - k];
    return sum * s->ki;
}
/* returns 0 when the derivative is not judged (the set-point moved between the readings involved) */
static int want_d(st_t *s, double *out) {
    *out = 0;
    if (s->nred < 2)
        return 1;
    if (s->d_en && (err(s) < 0 ? -err(s) : err(s)) > s->dth) {
        s->cut_d = 1;
        return 1;
    }
    size_t back = s->nred - 1 < D ? s->nred - 1 : D, at = s->nred - 1 - back;
    if (s->spchg[at] != s->gen)
        return 0;
    *out = s->kd * (err(s) - s->red[at]);
    return 1;
}
static void judge(st_t *s) {
    pid_ctrl_t *p  = &s->pid;
    double      wd = 0;
    int         dj = want_d(s, &wd);
    ot          e = pid_current_error(p);
    CHECK((double)e == err(s), "error", "current error %g, expected %g", (double)e, err(s));
    ot gp = pid_compute_p(p), gi = pid_compute_i(p), gd = pid_compute_d(p), g = pid_compute(p);
    ot wp = cut(s->kp * err(s)), wi = cut(want_i(s));
    CHECK(gp == wp, "proportional", "P is %.9g, expected %.9g (Kp %g, error %g)", (double)gp, (double)wp, s->kp, err(s));
    CHECK(gi == wi, "integral", "I is %.9g, expected %.9g (Ki %g, %zu recorded since the last clear)", (double)gi, (double)wi, s->ki,
          s->nrec - s->clear);
    if (dj) {
        ot w = cut(wd);
        CHECK(gd == w, "derivative", "D is %.9g, expected %.9g (Kd %g, reading %zu)", (double)gd, (double)w, s->kd, s->nred);
        OBS((long long)((double)gd * 1024));
        CHECK(g == (ot)(wp + wi + w), "sum", "output %.9g is not P+I+D = %.9g", (double)g, (double)(ot)(wp + wi + w));
    } else
        CHECK(g == (ot)(wp + wi + gd), "sum", "output %.9g is not P+I+D = %.9g", (double)g, (double)(ot)(wp + wi + gd));
    OBS((long long)((double)gp * 1024));
    OBS((long long)((double)gi * 1024));
    mon_state(mon_mix(mon_mix(s->nred > 2 * D + 2 ? 2 * D + 2 : s->nred, s->nrec - s->clear > N + 1 ? N + 1 : s->nrec - s->clear),
                      (uint64_t)(s->sign + 1) * 64 + s->autoclear * 32 + s->lo_en * 16 + s->hi_en * 8 + s->d_en * 4 + (err(s) > 0) + 2 * (err(s) < 0)));
}
static void model_init(st_t *s) {
    s->kp = s->ki = s->kd = s->in = s->sp = 0;
    s->nrec = s->clear = s->nred = 0;
    s->gen  = 0;
    s->sign = s->autoclear = s->lo_en = s->hi_en = s->d_en = 0;
    s->lo = s->hi = s->dth = 0;
}
static void g01(void) {
    st_t *s = mon_zalloc(sizeof *s);
    memset(&s->pid, 0xA5, sizeof s->pid);
    pid_ctrl_t *real = mon_alloc(sizeof *real); /* previous content as the run says */
    memcpy(&s->pid, real, sizeof *real);
    OP("init (history %d, delta %d)", (int)N, (int)D);
    pid_init(&s->pid);
    model_init(s);
    int reinit = 0, signs = 0, n = mon_long(20 + rn(chance(N > 50 ? 3 : 1, 4) ? 900 : 150)), style = rn(4);
    for (int it = 0; it < n && s->nrec < MAXR - 2; it++) {
        int op = rn(24);
        if (it == 0 && chance(3, 4))
            op = 20;
        if (op < 15) {
            double v = style == 0 ? s->in + (double)rr(0, 9) * (s->in < s->sp ? 1 : -1) : rnd_val(s->sp);
            v        = v > VMAX ? VMAX : v < -VMAX ? -VMAX : v;
            OP("input %g (set-point %g)", v, s->sp);
            pid_add_input(&s->pid, (ct)v);
            s->in    = v;
            double e = err(s), a = e < 0 ? -e : e, r = e;
            int    sg = e > 0 ? 1 : e < 0 ? -1 : s->sign;
            if (sg != s->sign) {
                signs++;
                s->sign = sg;
                if (s->autoclear)
                    s->clear = s->nrec, s->clears++;
            }
            if ((e > 0 && s->lo_en && a >= s->lo) || (e < 0 && s->hi_en && a >= s->hi))
                r = 0, s->cut_i = 1;
            s->rec[s->nrec++]     = r;
            s->red[s->nred]       = e;
            s->spchg[s->nred++]   = s->gen;
        } else if (op < 17) {
            double v = rnd_val(s->in);
            OP("set-point %g", v);
            pid_set_sp(&s->pid, (ct)v);
            if (v != s->sp)
                s->gen++;
            s->sp = v;
        } else if (op == 17) {
            s->lo_en = chance(1, 2);
            size_t t = rskew(300);
            OP("integral low threshold %zu, enabled %d", t, s->lo_en);
            pid_set_integral_low_threshold(&s->pid, t);
            pid_enable_integral_low_threshold(&s->pid, s->lo_en);
            s->lo = (double)t;
        } else if (op == 18) {
            s->hi_en = chance(1, 2);
            size_t t = rskew(300);
            OP("integral high threshold %zu, enabled %d", t, s->hi_en);
            pid_set_integral_high_threshold(&s->pid, t);
            pid_enable_integral_high_threshold(&s->pid, s->hi_en);
            s->hi = (double)t;
        } else if (op == 19) {
            s->d_en = chance(1, 2);
            s->dth  = (double)rskew(200);
            OP("derivative threshold %g, enabled %d", s->dth, s->d_en);
            pid_set_derivative_threshold(&s->pid, (ct)s->dth, (ct)rskew(200));
            pid_enable_derivative_threshold(&s->pid, s->d_en);
        } else if (op == 20) {
            s->kp = rnd_k(), s->ki = rnd_k(), s->kd = rnd_k();
            OP("tune %g %g %g", s->kp, s->ki, s->kd);
            pid_ctrl_tune(&s->pid, (float)s->kp, (float)s->ki, (float)s->kd);
        } else if (op == 21) {
            s->autoclear = chance(1, 2);
            OP("clear on sign change: %d", s->autoclear);
            pid_set_auto_integral_clear(&s->pid, s->autoclear ? 1 + (int)rn(2) : 0);
        } else if (op == 22 && seldom(1, 2)) {
            OP("clear the integral history");
            pid_clear_integral_history(&s->pid);
            s->clear = s->nrec;
        } else if (op == 23 && seldom(1, 6)) {
            OP("init again");
            pid_init(&s->pid);
            model_init(s);
            reinit = 1;
        }
        judge(s);
    }
    (void)reinit;
    if (s->nrec > N + D && signs > 1 && (s->cut_i || s->cut_d || s->clears))
        mon_nontrivial();
}
DRIVER("G01", g01,
       "random histories of readings, set-points, gains, thresholds, clears and re-initialisation; P, I, D and the output checked after "
       "every step; non-trivial: the history wrapped, the error changed sign and a threshold or automatic clear acted")
