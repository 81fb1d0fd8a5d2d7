#include "h.h"
/* covering: the covered rule matches the input it was made for */
int main(int argc, char **argv)
{
    start(argc, argv, "C03");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 5), 1, ri(1, 4));
        condcfg(&x);
        for (int r = 0; r < 20; ++r) {
            struct Cl *c = malloc(sizeof(struct Cl));
            const double sz = ri(1, 9);
            const int tm = ri(0, 99), a = ri(0, x.n_actions - 1);
            cl_init(&x, c, sz, tm);
            double *v = randx(x.x_dim);
            for (int i = 0; coin() && i < x.x_dim; ++i) { v[i] = rd(x.cond->min, x.cond->max); }
            cl_cover(&x, c, v, a);
            const int deg = x.cond->type == COND_TYPE_HYPERELLIPSOID && x.cond->max - x.cond->min <= 0;
            if (!deg) {
                CHK(cond_match(&x, c, v), "condition type %d covering x[0]=%g does not match it", x.cond->type, v[0]);
            }
            CHK(c->m, "covered rule not flagged as matching");
            CHK(act_compute(&x, c, v) == a && c->action == a, "covered rule advocates %d, asked for %d", act_compute(&x, c, v), a);
            CHK(c->exp == 0 && c->num == 1 && c->time == tm && c->size == sz, "fresh rule bookkeeping");
            EQ(c->err, x.INIT_ERROR, "initial error");
            EQ(c->fit, x.INIT_FITNESS, "initial fitness");
            free(v);
            cl_free(&x, c);
        }
        teardown(&x);
    }
    return finish();
}
