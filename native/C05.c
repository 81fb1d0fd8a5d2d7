#include "h.h"
/* the prediction of a rule is the configured function of the input */
static const int T[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC };
int main(int argc, char **argv)
{
    start(argc, argv, "C05");
    while (more()) {
        struct XCSF x;
        const int xd = ri(1, 6), yd = ri(1, 4);
        setup(&x, xd, yd, 1);
        const int t = T[ri(0, 4)];
        pred_param_set_type(&x, t);
        pred_param_set_x0(&x, coin() ? 1 : rd(0.1, 2));
        struct Cl *c = newcl(&x);
        for (int r = 0; r < 20; ++r) {
            double *v = randx(xd);
            double was[8];
            for (int j = 0; j < yd; ++j) { was[j] = c->prediction[j] = rv(); }
            double B[64];
            int n = 0;
            B[n++] = x.pred->x0;
            for (int i = 0; i < xd; ++i) { B[n++] = v[i]; }
            if (t == PRED_TYPE_NLMS_QUADRATIC || t == PRED_TYPE_RLS_QUADRATIC) {
                for (int i = 0; i < xd; ++i) { for (int j = i; j < xd; ++j) { B[n++] = v[i] * v[j]; } }
            }
            double *w = NULL;
            int pn = n;
            if (t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC) { struct PredNLMS *p = c->pred; w = p->weights; pn = p->n; }
            if (t == PRED_TYPE_RLS_LINEAR || t == PRED_TYPE_RLS_QUADRATIC) { struct PredRLS *p = c->pred; w = p->weights; pn = p->n; }
            CHK(pn == n, "type %d: %d basis terms, expected %d", t, pn, n);
            if (w) { for (int i = 0; i < n * yd; ++i) { w[i] = rv(); } }
            const double *out = cl_predict(&x, c, v);
            for (int j = 0; j < yd; ++j) {
                double e = was[j];
                if (w) { e = 0; for (int k = 0; k < n; ++k) { e += w[j * n + k] * B[k]; } }
                CHK(near(out[j], e), "type %d x_dim %d output %d: %.17g, expected %.17g", t, xd, j, out[j], e);
            }
            free(v);
        }
        cl_free(&x, c);
        teardown(&x);
    }
    return finish();
}
