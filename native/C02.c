#include "h.h"
/* generality implies containment; identical rectangles are mutually general */
int main(int argc, char **argv)
{
    start(argc, argv, "C02");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 4), 1, ri(1, 3));
        do { condcfg(&x); } while (x.cond->type == COND_TYPE_HYPERELLIPSOID);
        struct Cl *a = newcl(&x), *b = newcl(&x);
        for (int r = 0; r < 60; ++r) {
            scramble(&x, a);
            scramble(&x, b);
            if (x.cond->type == COND_TYPE_TERNARY) {
                const struct CondTernary *p = a->cond, *q = b->cond;
                const int m = ri(0, 3);
                if (m) { memcpy(q->string, p->string, p->length); }
                if (m > 1) { for (int k = 0; k < m; ++k) { q->string[ri(0, p->length - 1)] = "01#"[ri(0, 2)]; } }
            }
            const int g = cond_general(&x, a, b);
            int want = 1;
            if (x.cond->type == COND_TYPE_TERNARY) {
                const struct CondTernary *p = a->cond, *q = b->cond;
                int diff = 0;
                for (int i = 0; i < p->length; ++i) {
                    if (p->string[i] != q->string[i]) { diff = 1; if (p->string[i] != '#') { want = 0; } }
                }
                want = want && diff;
            } else {
                const struct CondRectangle *p = a->cond, *q = b->cond;
                for (int i = 0; i < x.x_dim; ++i) {
                    double l1, u1, l2, u2;
                    if (x.cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {
                        l1 = p->b1[i] - p->b2[i]; u1 = p->b1[i] + p->b2[i];
                        l2 = q->b1[i] - q->b2[i]; u2 = q->b1[i] + q->b2[i];
                    } else {
                        l1 = fmin(p->b1[i], p->b2[i]); u1 = fmax(p->b1[i], p->b2[i]);
                        l2 = fmin(q->b1[i], q->b2[i]); u2 = fmax(q->b1[i], q->b2[i]);
                    }
                    if (l1 > l2 || u1 < u2) { want = 0; }
                }
            }
            CHK(g == want, "condition type %d: general=%d, expected %d", x.cond->type, g, want);
            a->action = ri(0, x.n_actions - 1);
            const struct ActInteger *pa = a->act, *pb = b->act;
            const int ag = act_general(&x, a, b);
            CHK(ag == (pa->action == pb->action), "action generality %d for actions %d and %d", ag, pa->action, pb->action);
            const int cg = cl_general(&x, a, b);
            CHK(cg == (g && ag), "rule generality %d, condition %d, action %d", cg, g, ag);
            if (g) {
                for (int k = 0; k < 6; ++k) {
                    double *v = randx(x.x_dim);
                    CHK(!cond_match(&x, b, v) || cond_match(&x, a, v),
                        "a general condition (type %d) rejects an input its specific one accepts", x.cond->type);
                    free(v);
                }
            }
        }
        cl_free(&x, a);
        cl_free(&x, b);
        teardown(&x);
    }
    return finish();
}
