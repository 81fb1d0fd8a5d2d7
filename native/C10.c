#include "h.h"
/* population accounts over random histories of learning */
static void account(const struct XCSF *x, const struct Set *s, const char *who)
{
    int n = 0, num = 0;
    for (struct Clist *l = s->list; l; l = l->next) {
        ++n;
        num += l->cl->num;
        CHK(l->cl->num >= 1, "%s: a rule with %d copies", who, l->cl->num);
        for (struct Clist *m = l->next; m; m = m->next) { CHK(m->cl != l->cl, "%s: a rule is listed twice", who); }
        CHK(n < 100000, "%s: endless list", who);
    }
    CHK(n == s->size, "%s: size %d but %d rules", who, s->size, n);
    CHK(num == s->num, "%s: numerosity %d but the rules add up to %d", who, s->num, num);
    (void) x;
}
int main(int argc, char **argv)
{
    start(argc, argv, "C10");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 3), 1, ri(1, 3));
        condcfg(&x);
        if (x.cond->max <= x.cond->min) { cond_param_set_max(&x, x.cond->min + 1); }
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        param_set_pop_size(&x, ri(1, 25) + x.n_actions);
        param_set_pop_init(&x, coin());
        param_set_theta_sub(&x, ri(0, 5));
        param_set_e0(&x, coin() ? 10 : 0.1);
        param_set_set_subsumption(&x, coin());
        param_set_m_probation(&x, coin() ? 3 : 10000);
        ea_param_set_subsumption(&x, coin());
        ea_param_set_theta(&x, ri(0, 5));
        ea_param_set_lambda(&x, 2 * ri(1, 2));
        clset_pset_init(&x);
        account(&x, &x.pset, "initial population");
        CHK(x.pset.num == (x.POP_INIT ? x.POP_SIZE : 0), "initial population has %d of %d", x.pset.num, x.POP_SIZE);
        for (int t = 0; t < 40; ++t) {
            double *v = randx(x.x_dim);
            double y[1] = { ri(0, 1) };
            clset_init(&x.mset);
            clset_init(&x.kset);
            clset_init(&x.aset);
            clset_match(&x, v, true);
            account(&x, &x.pset, "population after matching");
            CHK(x.pset.num <= x.POP_SIZE, "numerosity %d over the limit %d", x.pset.num, x.POP_SIZE);
            pa_build(&x, v);
            clset_action(&x, ri(0, x.n_actions - 1));
            account(&x, &x.aset, "action set");
            const int before = x.pset.num;
            clset_update(&x, &x.aset, v, y, true);
            account(&x, &x.aset, "action set after update");
            account(&x, &x.pset, "population after update");
            CHK(x.pset.num == before, "update changed the numerosity from %d to %d", before, x.pset.num);
            ea(&x, &x.aset);
            account(&x, &x.pset, "population after the EA");
            CHK(x.pset.num <= x.POP_SIZE, "numerosity %d over the limit %d", x.pset.num, x.POP_SIZE);
            clset_kill(&x, &x.kset);
            CHK(x.kset.size == 0 && x.kset.list == NULL, "kill list not emptied");
            clset_free(&x.mset);
            clset_free(&x.aset);
            ++x.time;
            free(v);
        }
        teardown(&x);
    }
    return finish();
}
