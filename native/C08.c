#include "h.h"
/* experience, error, set size and fitness follow the stated update rules */
struct S { double fit, err, size; int exp, num; double pred[4]; };
int main(int argc, char **argv)
{
    start(argc, argv, "C08");
    while (more()) {
        struct XCSF x;
        const int yd = ri(1, 3);
        setup(&x, 2, yd, 1);
        pred_param_set_type(&x, coin() ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR);
        param_set_beta(&x, ri(1, 10) * 0.1);
        param_set_e0(&x, ri(1, 8) * 0.125);
        param_set_alpha(&x, ri(1, 10) * 0.1);
        param_set_nu(&x, ri(1, 6));
        param_set_set_subsumption(&x, false);
        const int n = ri(1, 5);
        struct Cl *c[8];
        struct S s[8];
        struct Set set;
        clset_init(&set);
        for (int i = 0; i < n; ++i) {
            c[i] = newcl(&x);
            c[i]->num = ri(1, 3);
            c[i]->exp = ri(0, 12);
            c[i]->err = ri(0, 8) * 0.125;
            c[i]->fit = rd(0.01, 1);
            c[i]->size = ri(0, 20) * 0.5;
            clset_add(&set, c[i]);
        }
        double v[2] = { rv(), rv() }, y[4];
        for (int j = 0; j < yd; ++j) { y[j] = rv(); }
        for (int i = 0; i < n; ++i) {
            if (x.pred->type == PRED_TYPE_CONSTANT) { for (int j = 0; j < yd; ++j) { c[i]->prediction[j] = rv(); } }
            cl_predict(&x, c[i], v);
            s[i] = (struct S) { c[i]->fit, c[i]->err, c[i]->size, c[i]->exp, c[i]->num, { 0 } };
            memcpy(s[i].pred, c[i]->prediction, sizeof(double) * yd);
        }
        const bool cur = coin();
        if (!cur && x.pred->type != PRED_TYPE_CONSTANT) { for (int i = 0; i < n; ++i) { c[i]->prediction[0] += 1; } }
        const int num = set.num;
        double acc[8], sum = 0;
        clset_update(&x, &set, v, y, cur);
        for (int i = 0; i < n; ++i) {
            CHK(c[i]->exp == s[i].exp + 1, "experience %d -> %d", s[i].exp, c[i]->exp);
            const double e = (x.loss_ptr)(&x, s[i].pred, y);
            const int k = s[i].exp + 1;
            const double err = k * x.BETA < 1 ? (s[i].err * (k - 1) + e) / k : s[i].err + x.BETA * (e - s[i].err);
            const double sz = k * x.BETA < 1 ? (s[i].size * (k - 1) + num) / k : s[i].size + x.BETA * (num - s[i].size);
            CHK(near(c[i]->err, err), "error %.17g, expected %.17g (experience %d beta %g)", c[i]->err, err, k, x.BETA);
            CHK(near(c[i]->size, sz), "set size %.17g, expected %.17g (experience %d)", c[i]->size, sz, k);
            acc[i] = c[i]->err > x.E0 ? fmax(x.ALPHA * pow(c[i]->err / x.E0, -x.NU), DBL_EPSILON) : 1;
            CHK(near(cl_acc(&x, c[i]), acc[i]), "accuracy %.17g, expected %.17g", cl_acc(&x, c[i]), acc[i]);
            sum += acc[i] * c[i]->num;
        }
        for (int i = 0; i < n; ++i) {
            const double f = s[i].fit + x.BETA * (acc[i] * s[i].num / sum - s[i].fit);
            CHK(near(c[i]->fit, f), "fitness %.17g, expected %.17g (rule %d of %d)", c[i]->fit, f, i, n);
            CHK(c[i]->fit > 0 || (x.BETA == 1 && acc[i] <= 1e-12), "fitness %.17g not positive", c[i]->fit);
            CHK(c[i]->num == s[i].num, "numerosity changed");
        }
        clset_kill(&x, &set);
        teardown(&x);
    }
    return finish();
}
