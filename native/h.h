/* Replay drivers: search for a concrete input on which the real code breaks a
 * contract that the verifier could not discharge. Public interface only. */
#pragma once
#include "xcsf.h"
#include <unistd.h>
#include "act_integer.h"
#include "action.h"
#include "blas.h"
#include "cl.h"
#include "clset.h"
#include "cond_dummy.h"
#include "cond_ellipsoid.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "condition.h"
#include "ea.h"
#include "loss.h"
#include "pa.h"
#include "param.h"
#include "pred_constant.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "prediction.h"
#include "sam.h"
#include "utils.h"
#include <float.h>
#include <stdarg.h>
#include <time.h>


static unsigned long long g_s = 88172645463325252ULL;
static long g_cases;
static const char *g_pid;
static FILE *g_out;
#define OUT (g_out ? g_out : stdout)
/* keep the library's own messages out of the report */
static void quiet(void) { g_out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) { g_out = NULL; } }
static double g_secs = 4;
static struct timespec g_t0;

static unsigned rnd(void)
{
    g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17;
    return (unsigned) (g_s >> 16);
}
static int ri(int lo, int hi) { return lo + (int) (rnd() % (unsigned) (hi - lo + 1)); }
static double rd(double lo, double hi) { return lo + (hi - lo) * ((rnd() & 0xffffff) / 16777215.0); }
/* a value from a small grid, so that ties and boundaries are common */
static double grid(void) { return ri(-4, 4) * 0.25; }
static double rv(void) { return ri(0, 1) ? grid() : rd(-1.5, 1.5); }
static int coin(void) { return ri(0, 1); }

static int more(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    ++g_cases;
    return (t.tv_sec - g_t0.tv_sec) + 1e-9 * (t.tv_nsec - g_t0.tv_nsec) < g_secs;
}
static void fail(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    fprintf(OUT, "FAIL %s case %ld: ", g_pid, g_cases);
    vfprintf(OUT, fmt, a);
    fprintf(OUT, "\n");
    va_end(a);
    fflush(OUT);
    _exit(1);
}
#define CHK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static int near(double a, double b)
{
    const double s = fmax(1, fmax(fabs(a), fabs(b)));
    return a == b || fabs(a - b) <= 1e-7 * s;
}
#define EQ(a, b, what) do { const double _a = (a), _b = (b); if (!near(_a, _b)) \
    fail("%s: got %.17g, expected %.17g", what, _a, _b); } while (0)

static void start(int argc, char **argv, const char *pid)
{
    g_pid = pid;
    const int seed = argc > 1 ? atoi(argv[1]) : 1;
    if (argc > 2) { g_secs = atof(argv[2]); }
    g_s ^= (unsigned long long) (unsigned) seed * 0x9E3779B97F4A7C15ULL;
    for (int i = 0; i < 8; ++i) { rnd(); }
    rand_init_seed((uint32_t) seed);
    clock_gettime(CLOCK_MONOTONIC, &g_t0);
}
static int finish(void) { fprintf(OUT, "OK %s cases %ld\n", g_pid, g_cases); fflush(OUT); return 0; }

/* memory still allocated at the end of a case that releases everything it made */
size_t __sanitizer_get_current_allocated_bytes(void);
static size_t g_live;
static void leak_start(void) { g_live = __sanitizer_get_current_allocated_bytes(); }
static void leak_end(void)
{
    const size_t n = __sanitizer_get_current_allocated_bytes();
    if (g_cases > 6 && n > g_live) { fail("%zu bytes are never released", n - g_live); }
}
/* kinds of rules whose parts can be made without further configuration */
static int anycond(void)
{
    static const int t[] = { COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY };
    return t[ri(0, 4)];
}
static int anypred(void)
{
    static const int t[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC };
    return t[ri(0, 4)];
}

static void setup(struct XCSF *x, int xd, int yd, int na)
{
    memset(x, 0, sizeof(*x));
    param_init(x, xd, yd, na);
    param_set_random_state(x, ri(1, 100000));
    param_set_pop_init(x, false);
    xcsf_init(x);
    param_set_omp_num_threads(x, 1);
}
static void teardown(struct XCSF *x) { xcsf_free(x); param_free(x); }
static struct Cl *newcl(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1 + ri(0, 9), ri(0, 9));
    cl_rand(x, c);
    return c;
}
static double *randx(int n)
{
    double *v = malloc(sizeof(double) * (n + 1));
    for (int i = 0; i < n; ++i) { v[i] = rv(); }
    return v;
}
/* reference semantics of the interval / ternary / ellipsoid conditions */
static int ref_bit(double f, int i)
{
    if (f >= 1) { return 1; }
    if (f <= 0) { return 0; }
    for (int k = 0; k <= i; ++k) {
        f *= 2;
        if (k == i) { return f >= 1; }
        if (f >= 1) { f -= 1; }
    }
    return 0;
}
static int ref_match(const struct XCSF *x, const struct Cl *c, const double *v)
{
    const int t = x->cond->type;
    if (t == COND_TYPE_DUMMY) { return 1; }
    if (t == COND_TYPE_TERNARY) {
        const struct CondTernary *p = c->cond;
        for (int i = 0; i < x->x_dim; ++i) {
            for (int b = 0; b < x->cond->bits; ++b) {
                const char ch = p->string[i * x->cond->bits + b];
                if (ch != '#' && ch != (ref_bit(v[i], b) ? '1' : '0')) { return 0; }
            }
        }
        return 1;
    }
    if (t == COND_TYPE_HYPERELLIPSOID) {
        const struct CondEllipsoid *p = c->cond;
        double d = 0;
        for (int i = 0; i < x->x_dim; ++i) {
            const double q = (v[i] - p->center[i]) / p->spread[i];
            d += q * q;
        }
        if (fabs(d - 1) < 1e-9 && d != 1) { return -1; }
        return d < 1;
    }
    const struct CondRectangle *p = c->cond;
    for (int i = 0; i < x->x_dim; ++i) {
        double lo, hi;
        if (t == COND_TYPE_HYPERRECTANGLE_CSR) { lo = p->b1[i] - p->b2[i]; hi = p->b1[i] + p->b2[i]; }
        else { lo = fmin(p->b1[i], p->b2[i]); hi = fmax(p->b1[i], p->b2[i]); }
        if (v[i] < lo || v[i] > hi) { return 0; }
    }
    return 1;
}
static const int CTYPES[] = { COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR,
                              COND_TYPE_HYPERELLIPSOID, COND_TYPE_TERNARY };
/* scramble the genes of a condition to arbitrary legal values */
static void scramble(const struct XCSF *x, const struct Cl *c)
{
    const int t = x->cond->type;
    if (t == COND_TYPE_TERNARY) {
        struct CondTernary *p = c->cond;
        for (int i = 0; i < p->length; ++i) { p->string[i] = "01##"[ri(0, 3)]; }
    } else if (t == COND_TYPE_HYPERELLIPSOID) {
        struct CondEllipsoid *p = c->cond;
        for (int i = 0; i < x->x_dim; ++i) { p->center[i] = rv(); p->spread[i] = coin() ? ri(1, 8) * 0.25 : rd(0.01, 3); }
    } else if (t != COND_TYPE_DUMMY) {
        struct CondRectangle *p = c->cond;
        for (int i = 0; i < x->x_dim; ++i) {
            p->b1[i] = rv();
            p->b2[i] = t == COND_TYPE_HYPERRECTANGLE_CSR ? (coin() ? ri(0, 6) * 0.25 : rd(0, 2)) : rv();
        }
    }
}
static void condcfg(struct XCSF *x)
{
    cond_param_set_type(x, CTYPES[ri(0, 3)]);
    const double lo = ri(-4, 2) * 0.5;
    cond_param_set_min(x, lo);
    cond_param_set_max(x, lo + (ri(0, 6) ? ri(1, 6) * 0.5 : 0));
    cond_param_set_spread_min(x, ri(0, 4) * 0.25);
    cond_param_set_p_dontcare(x, ri(0, 4) * 0.25);
    cond_param_set_bits(x, ri(1, 4));
    cond_param_set_eta(x, ri(0, 2) * 0.25);
}
