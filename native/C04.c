#include "h.h"
/* genetic operators keep genes legal and report changes truthfully */
static int genes(const struct XCSF *x, const struct Cl *c, double *g)
{
    const int t = x->cond->type;
    int n = 0;
    if (t == COND_TYPE_TERNARY) {
        const struct CondTernary *p = c->cond;
        for (int i = 0; i < p->length; ++i) { g[n++] = p->string[i]; }
    } else if (t == COND_TYPE_HYPERELLIPSOID) {
        const struct CondEllipsoid *p = c->cond;
        for (int i = 0; i < x->x_dim; ++i) { g[n++] = p->center[i]; g[n++] = p->spread[i]; }
    } else {
        const struct CondRectangle *p = c->cond;
        for (int i = 0; i < x->x_dim; ++i) { g[n++] = p->b1[i]; g[n++] = p->b2[i]; }
    }
    return n;
}
static double *mu_of(const struct XCSF *x, const struct Cl *c)
{
    const int t = x->cond->type;
    if (t == COND_TYPE_TERNARY) { return ((struct CondTernary *) c->cond)->mu; }
    if (t == COND_TYPE_HYPERELLIPSOID) { return ((struct CondEllipsoid *) c->cond)->mu; }
    return ((struct CondRectangle *) c->cond)->mu;
}
static void legal(const struct XCSF *x, const double *g, int n)
{
    const int t = x->cond->type;
    for (int i = 0; i < n; ++i) {
        if (t == COND_TYPE_TERNARY) {
            CHK(g[i] == '0' || g[i] == '1' || g[i] == '#', "illegal ternary symbol %g", g[i]);
        } else if (i % 2 == 0 || t == COND_TYPE_HYPERRECTANGLE_UBR) {
            CHK(g[i] >= x->cond->min && g[i] <= x->cond->max, "gene %g outside [%g,%g] (type %d)", g[i], x->cond->min, x->cond->max, t);
        } else {
            CHK(g[i] > 0, "spread %g not positive (type %d)", g[i], t);
        }
    }
}
int main(int argc, char **argv)
{
    start(argc, argv, "C04");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 5), 1, ri(1, 4));
        condcfg(&x);
        ea_param_set_p_crossover(&x, ri(0, 2) * 0.5);
        struct Cl *a = newcl(&x), *b = newcl(&x);
        double g0[64], g1[64], h0[64], h1[64];
        for (int r = 0; r < 30; ++r) {
            scramble(&x, a);
            scramble(&x, b);
            if (ri(0, 3) == 0) {
                const int n = genes(&x, a, g0);
                (void) n;
                cond_free(&x, b);
                cond_copy(&x, b, a);
            }
            mu_of(&x, a)[0] = ri(0, 2) ? rd(0.0005, 1) : (coin() ? 0.0005 : 1.0);
            int n = genes(&x, a, g0);
            bool ch = cond_mutate(&x, a);
            genes(&x, a, g1);
            legal(&x, g1, n);
            CHK(mu_of(&x, a)[0] >= 0.0005 && mu_of(&x, a)[0] <= 1, "mutation rate %g", mu_of(&x, a)[0]);
            CHK((memcmp(g0, g1, sizeof(double) * n) != 0) == ch, "mutation (type %d) reported %d but genes %s",
                x.cond->type, ch, ch ? "did not change" : "changed");
            n = genes(&x, a, g0);
            genes(&x, b, h0);
            ch = cond_crossover(&x, a, b);
            genes(&x, a, g1);
            genes(&x, b, h1);
            int diff = 0;
            for (int i = 0; i < n; ++i) {
                CHK((g1[i] == g0[i] && h1[i] == h0[i]) || (g1[i] == h0[i] && h1[i] == g0[i]),
                    "crossover (type %d) gene %d: (%g,%g) became (%g,%g)", x.cond->type, i, g0[i], h0[i], g1[i], h1[i]);
                diff |= g1[i] != g0[i] || h1[i] != h0[i];
            }
            CHK(ch || !diff, "crossover (type %d) changed genes but reported no change", x.cond->type);
            if (x.ea->p_crossover == 0) { CHK(!ch && !diff, "crossover with probability 0 did something"); }
            struct ActInteger *pa = a->act;
            pa->action = ri(0, x.n_actions - 1);
            const int a0 = pa->action;
            pa->mu[0] = coin() ? 1 : rd(0.0005, 1);
            const bool ac = act_mutate(&x, a);
            CHK(pa->action >= 0 && pa->action < x.n_actions, "action %d of %d", pa->action, x.n_actions);
            CHK(ac == (pa->action != a0), "action mutation reported %d: %d -> %d", ac, a0, pa->action);
            CHK(pa->mu[0] >= 0.0005 && pa->mu[0] <= 1, "action mutation rate %g", pa->mu[0]);
        }
        cl_free(&x, a);
        cl_free(&x, b);
        teardown(&x);
    }
    return finish();
}
