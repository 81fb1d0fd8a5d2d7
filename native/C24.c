#include "h.h"
/* Reported statistics. */
static double frac(const struct Cl *c) { return c->age > 0 ? (double) c->mtotal / c->age : 0; }
static double ref(const struct XCSF *x)
{
    double best = 0;
    for (const struct Clist *i = x->pset.list; i != NULL; i = i->next) {
        if (i->cl->err < x->E0 && i->cl->exp * x->BETA > 1) { best = fmax(best, frac(i->cl)); }
    }
    if (best > 0) { return best; }
    const struct Cl *low = NULL;
    for (const struct Clist *i = x->pset.list; i != NULL; i = i->next) {
        if (i->cl->exp * x->BETA > 1 && (low == NULL || i->cl->err < low->err)) { low = i->cl; }
    }
    return low == NULL ? 0 : frac(low);
}
int main(int argc, char **argv)
{
    start(argc, argv, "C24");
    quiet();
    while (more()) {
        leak_start();
        struct XCSF x;
        setup(&x, ri(1, 3), ri(1, 2), ri(1, 3));
        cond_param_set_type(&x, anycond());
        pred_param_set_type(&x, anypred());
        param_set_beta(&x, ri(1, 10) / 10.0);
        param_set_e0(&x, ri(0, 4) * 0.25);
        param_set_pop_size(&x, 40);
        const int n = ri(0, 8);
        for (int i = 0; i < n; ++i) {
            struct Cl *c = newcl(&x);
            c->err = ri(0, 4) * 0.25; c->exp = ri(0, 12); c->age = ri(0, 6); c->mtotal = c->age ? ri(0, c->age) : 0;
            clset_add(&x.pset, c);
        }
        if (n > 0) {
            double cs = 0, ps = 0;
            for (const struct Clist *i = x.pset.list; i != NULL; i = i->next) { cs += cl_cond_size(&x, i->cl); ps += cl_pred_size(&x, i->cl); EQ(cl_mfrac(&x, i->cl), frac(i->cl), "fraction of a rule"); }
            EQ(clset_mean_cond_size(&x, &x.pset), cs / n, "mean condition size");
            EQ(clset_mean_pred_size(&x, &x.pset), ps / n, "mean prediction size");
        }
        EQ(clset_mfrac(&x), ref(&x), "fraction matched");
        /* an operation keeps the running averages */
        x.mset_size = rd(0, 9); x.aset_size = rd(0, 9); x.mfrac = rd(0, 1);
        const double m0 = x.mset_size, a0 = x.aset_size, f0 = x.mfrac;
        double in[3] = { rd(0, 1), rd(0, 1), rd(0, 1) };
        clset_init(&x.mset); clset_init(&x.aset); clset_init(&x.kset);
        clset_match(&x, in, coin());
        EQ(x.mset_size, m0 + (x.mset.size - m0) * x.BETA, "average match set size");
        EQ(x.mfrac, f0 + (ref(&x) - f0) * x.BETA, "average fraction matched");
        EQ(x.aset_size, a0, "action set average touched");
        clset_action(&x, ri(0, x.n_actions - 1));
        EQ(x.aset_size, a0 + (x.aset.size - a0) * x.BETA, "average action set size");
        clset_free(&x.mset); clset_free(&x.aset); clset_kill(&x, &x.kset);
        teardown(&x);
        leak_end();
    }
    return finish();
}
