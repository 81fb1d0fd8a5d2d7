#include "h.h"
/* A new system and its end. */
int main(int argc, char **argv)
{
    start(argc, argv, "C23");
    quiet();
    while (more()) {
        leak_start();
        struct XCSF x;
        memset(&x, 0x3c, sizeof(x));
        const int na = ri(1, 3);
        param_init(&x, ri(1, 4), ri(1, 3), na);
        param_set_random_state(&x, ri(1, 100000));
        param_set_omp_num_threads(&x, 1);
        const int fill = coin(), size = ri(1, 30);
        param_set_pop_init(&x, fill);
        param_set_pop_size(&x, size);
        param_set_e0(&x, rd(0, 1));
        param_set_init_error(&x, rd(0, 1));
        param_set_init_fitness(&x, rd(0.1, 1));
        cond_param_set_type(&x, anycond());
        pred_param_set_type(&x, anypred());
        cond_param_set_bits(&x, ri(1, 2));
        xcsf_init(&x);
        CHK(x.time == 0 && x.error == x.E0 && x.mset_size == 0 && x.aset_size == 0 && x.mfrac == 0 && !x.explore, "a new system has a history");
        CHK(x.prev_pset.list == NULL && x.prev_pset.size == 0 && x.prev_pset.num == 0, "a new system has a stored population");
        CHK(x.pset.num == (fill ? size : 0), "initial numerosity %d, maximum %d, filled %d", x.pset.num, size, fill);
        int n = 0;
        double in[4] = { rd(0, 1), rd(0, 1), rd(0, 1), rd(0, 1) };
        for (struct Clist *i = x.pset.list; i != NULL; i = i->next, ++n) {
            struct Cl *c = i->cl;
            CHK(c->num == 1 && c->exp == 0 && c->fit == x.INIT_FITNESS && c->err == x.INIT_ERROR && c->size == size && c->time == 0 && c->age == 0 && c->mtotal == 0,
                "an initial rule: num %d exp %d fit %g err %g size %g time %d age %d matched %d", c->num, c->exp, c->fit, c->err, c->size, c->time, c->age, c->mtotal);
            for (int k = 0; k < x.y_dim; ++k) { CHK(c->prediction[k] == 0, "an initial prediction"); }
            cl_match(&x, c, in);
            const int a = cl_action(&x, c, in);
            CHK(a >= 0 && a < na, "an initial action");
            cl_predict(&x, c, in);
            for (struct Clist *j = i->next; j != NULL; j = j->next) { CHK(j->cl != c && (x.cond->type == COND_TYPE_DUMMY || j->cl->cond != c->cond), "a rule twice"); }
        }
        CHK(n == x.pset.size, "size account %d for %d rules", x.pset.size, n);
        if (coin()) { xcsf_store_pset(&x); }
        x.time = 7; x.mfrac = 0.5; x.mset_size = 3; x.aset_size = 2; x.explore = true; x.error = 9;
        xcsf_free(&x);
        CHK(x.time == 0 && x.error == x.E0 && x.mset_size == 0 && x.aset_size == 0 && x.mfrac == 0 && !x.explore, "a released system keeps a history");
        CHK(x.pset.list == NULL && x.pset.size == 0 && x.pset.num == 0 && x.prev_pset.list == NULL && x.prev_pset.size == 0 && x.prev_pset.num == 0, "a released system keeps rules");
        param_free(&x);
        leak_end();
    }
    return finish();
}
