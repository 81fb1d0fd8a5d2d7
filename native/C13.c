#include "h.h"
/* prediction array against its definition, best action over many draws */
int main(int argc, char **argv)
{
    start(argc, argv, "C13");
    while (more()) {
        struct XCSF x;
        const int na = ri(1, 5), yd = na > 1 && ri(0, 3) ? 1 : ri(1, 3);
        setup(&x, ri(1, 2), yd, na);
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        clset_init(&x.mset);
        const int n = ri(0, 7), skip = ri(-1, na - 1);
        struct Cl *cl[8];
        double e[16][4], f[16];
        memset(e, 0, sizeof(e));
        memset(f, 0, sizeof(f));
        for (int i = 0; i < n; ++i) {
            struct Cl *c = cl[i] = newcl(&x);
            c->action = ri(0, na - 1);
            if (c->action == skip) { c->action = (skip + 1) % na; }
            c->fit = coin() ? ri(1, 8) * 0.125 : rd(1e-6, 1);
            double *w = c->pred;
            (void) w;
            clset_add(&x.mset, c);
        }
        CHK(x.pa_size == na * yd, "prediction array has %d entries, not %d", x.pa_size, na * yd);
        for (int i = 0; i < x.pa_size; ++i) { x.pa[i] = rv(); x.nr[i] = rv(); }
        double *v = randx(x.x_dim), *z = randx(yd);
        for (int i = 0; i < n; ++i) {
            /* make predictions differ: learn towards random targets */
            for (int j = 0; j < yd; ++j) { z[j] = rv() * (j + 1); }
            cl[i]->exp = 0;
            cl_predict(&x, cl[i], v);
            cl_update(&x, cl[i], v, z, 1, true);
            const double *p = cl_predict(&x, cl[i], v);
            f[cl[i]->action] += cl[i]->fit;
            for (int j = 0; j < yd; ++j) { e[cl[i]->action][j] += p[j] * cl[i]->fit; }
        }
        pa_build(&x, v);
        double best = -DBL_MAX;
        for (int a = 0; a < na; ++a) {
            for (int j = 0; j < yd; ++j) {
                const double w = f[a] != 0 ? e[a][j] / f[a] : 0;
                EQ(x.pa[a * yd + j], w, "prediction array entry");
                EQ(x.nr[a * yd + j], f[a], "fitness total");
                if (x.pa[a * yd + j] > best) { best = x.pa[a * yd + j]; }
            }
        }
        CHK(pa_best_val(&x) == best, "best value %g but the largest entry is %g", pa_best_val(&x), best);
        if (yd == 1) {
            if (coin()) { for (int a = 0; a < na; ++a) { x.pa[a] = ri(-1, 2); } }
            double m = x.pa[0];
            for (int a = 1; a < na; ++a) { if (x.pa[a] > m) { m = x.pa[a]; } }
            CHK(pa_best_val(&x) == m, "best value %g but the largest entry is %g", pa_best_val(&x), m);
            int seen[8] = { 0 };
            for (int k = 0; k < 60; ++k) {
                const int b = pa_best_action(&x);
                CHK(b >= 0 && b < na && x.pa[b] == m, "best action %d is not optimal", b);
                seen[b] = 1;
                if (n) {
                    const int r = pa_rand_action(&x);
                    CHK(r >= 0 && r < na && x.nr[r] != 0, "random action %d has no rule", r);
                }
            }
            for (int a = 0; a < na; ++a) {
                for (int k = 0; k < 3000 && x.pa[a] == m && !seen[a]; ++k) { seen[pa_best_action(&x)] = 1; }
                CHK(x.pa[a] != m || seen[a], "action %d ties for best but is never chosen", a);
                CHK(pa_val(&x, a) == x.pa[a], "value of action %d", a);
            }
        }
        for (int i = 0; i < n; ++i) { cl_free(&x, cl[i]); }
        clset_free(&x.mset);
        free(v);
        free(z);
        teardown(&x);
    }
    return finish();
}
