#include "h.h"
/* a learning step changes the prediction parameters as specified */
static const int T[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC };
int main(int argc, char **argv)
{
    start(argc, argv, "C06");
    while (more()) {
        struct XCSF x;
        const int xd = ri(1, 4), yd = ri(1, 3);
        setup(&x, xd, yd, 1);
        const int t = T[ri(0, 4)];
        pred_param_set_type(&x, t);
        pred_param_set_x0(&x, coin() ? 1 : rd(0.1, 2));
        pred_param_set_lambda(&x, coin() ? 1 : rd(0.5, 1));
        pred_param_set_eta(&x, rd(0.05, 1));
        pred_param_set_eta_min(&x, x.pred->eta * rd(0.1, 1));
        pred_param_set_evolve_eta(&x, coin());
        param_set_beta(&x, ri(1, 10) * 0.1);
        struct Cl *c = newcl(&x);
        for (int r = 0; r < 12; ++r) {
            double *v = randx(xd), *y = randx(yd);
            if (r) { c->exp = ri(1, 12); }
            else { c->exp = 1; }
            if (t == PRED_TYPE_CONSTANT) {
                double e[8];
                for (int j = 0; j < yd; ++j) {
                    c->prediction[j] = rv();
                    e[j] = c->exp * x.BETA < 1 ? (c->prediction[j] * (c->exp - 1) + y[j]) / c->exp
                                               : c->prediction[j] + x.BETA * (y[j] - c->prediction[j]);
                }
                pred_update(&x, c, v, y);
                for (int j = 0; j < yd; ++j) { CHK(near(c->prediction[j], e[j]), "constant prediction after update: %.17g, expected %.17g (exp %d)", c->prediction[j], e[j], c->exp); }
            } else if (t == PRED_TYPE_NLMS_LINEAR || t == PRED_TYPE_NLMS_QUADRATIC) {
                struct PredNLMS *p = c->pred;
                double w0[128];
                for (int i = 0; i < p->n * yd; ++i) { w0[i] = p->weights[i] = rv(); }
                pred_compute(&x, c, v);
                double norm = x.pred->x0 * x.pred->x0;
                for (int i = 0; i < xd; ++i) { norm += v[i] * v[i]; }
                double B[64], pr[8];
                memcpy(B, p->tmp_input, sizeof(double) * p->n);
                memcpy(pr, c->prediction, sizeof(double) * yd);
                pred_update(&x, c, v, y);
                for (int j = 0; j < yd; ++j) for (int k = 0; k < p->n; ++k) {
                    const double e = w0[j * p->n + k] + p->eta * (y[j] - pr[j]) / norm * B[k];
                    CHK(near(p->weights[j * p->n + k], e), "nlms weight (%d,%d): %.17g, expected %.17g", j, k, p->weights[j * p->n + k], e);
                }
                const double eta0 = p->eta;
                if (x.pred->evolve_eta) { p->mu[0] = coin() ? 1 : rd(0.001, 1); }
                const bool ch = pred_mutate(&x, c);
                CHK(ch == (p->eta != eta0), "nlms mutation reported %d, eta %g -> %g", ch, eta0, p->eta);
                CHK(p->eta >= x.pred->eta_min && p->eta <= x.pred->eta, "eta %g outside [%g,%g]", p->eta, x.pred->eta_min, x.pred->eta);
            } else {
                struct PredRLS *p = c->pred;
                const int n = p->n;
                double w0[128], M0[32 * 32], B[64], g[64], pr[8];
                for (int i = 0; i < n * yd; ++i) { w0[i] = p->weights[i] = rv(); }
                /* a symmetric positive definite gain */
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { p->matrix[i * n + j] = i == j ? rd(5, 50) : 0; }
                for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { p->matrix[i * n + j] = p->matrix[j * n + i] = rd(-0.2, 0.2); }
                memcpy(M0, p->matrix, sizeof(double) * n * n);
                pred_compute(&x, c, v);
                memcpy(B, p->tmp_input, sizeof(double) * n);
                memcpy(pr, c->prediction, sizeof(double) * yd);
                pred_update(&x, c, v, y);
                double d = x.pred->lambda;
                for (int i = 0; i < n; ++i) { g[i] = 0; for (int j = 0; j < n; ++j) { g[i] += M0[i * n + j] * B[j]; } }
                for (int i = 0; i < n; ++i) { d += B[i] * g[i]; }
                for (int i = 0; i < n; ++i) { g[i] /= d; }
                for (int j = 0; j < yd; ++j) for (int k = 0; k < n; ++k) {
                    const double e = w0[j * n + k] + g[k] * (y[j] - pr[j]);
                    CHK(near(p->weights[j * n + k], e), "rls weight (%d,%d): %.17g, expected %.17g", j, k, p->weights[j * n + k], e);
                }
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                    double s = 0;
                    for (int k = 0; k < n; ++k) { s += ((i == k) - g[i] * B[k]) * M0[k * n + j]; }
                    s /= x.pred->lambda;
                    CHK(fabs(p->matrix[i * n + j] - s) <= 1e-6 * fmax(1, fabs(s)), "rls gain (%d,%d): %.17g, expected %.17g", i, j, p->matrix[i * n + j], s);
                }
            }
            free(v);
            free(y);
        }
        cl_free(&x, c);
        teardown(&x);
    }
    return finish();
}
