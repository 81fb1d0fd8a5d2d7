#include "h.h"
int main(int argc, char **argv)
{
    start(argc, argv, "C01");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 6), ri(1, 2), ri(1, 3));
        condcfg(&x);
        struct Cl *c = newcl(&x);
        for (int r = 0; r < 40; ++r) {
            scramble(&x, c);
            double *v = randx(x.x_dim);
            const int want = ref_match(&x, c, v);
            const int age = c->age, mt = c->mtotal;
            const int got = cond_match(&x, c, v);
            if (want >= 0) {
                CHK(got == want, "condition type %d with %d inputs (x[0]=%g): matched=%d, expected %d",
                    x.cond->type, x.x_dim, v[0], got, want);
            }
            const int g2 = cl_match(&x, c, v);
            if (want >= 0) { CHK(g2 == want && cl_m(&x, c) == g2, "rule match flag %d, expected %d", g2, want); }
            CHK(c->age == age + 1 && c->mtotal == mt + (g2 ? 1 : 0),
                "match counters: age %d->%d, matches %d->%d, result %d", age, c->age, mt, c->mtotal, g2);
            CHK(c->m == g2, "stored flag %d, returned %d", c->m, g2);
            free(v);
        }
        cl_free(&x, c);
        teardown(&x);
    }
    return finish();
}
