#include "h.h"
/* covering */
int main(int argc, char **argv)
{
    start(argc, argv, "C12");
    while (more()) {
        struct XCSF x;
        const int na = ri(1, 4);
        setup(&x, ri(1, 2), 1, na);
        condcfg(&x);
        if (x.cond->max <= x.cond->min) { cond_param_set_max(&x, x.cond->min + 0.5); }
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        param_set_pop_size(&x, ri(2, 4) * na + ri(0, 6));
        param_set_theta_del(&x, ri(0, 20));
        const int n = ri(0, 10);
        for (int i = 0; i < n; ++i) {
            struct Cl *c = newcl(&x);
            scramble(&x, c);
            ((struct ActInteger *) c->act)->action = c->action = ri(0, na - 1);
            c->num = ri(1, 3);
            c->age = ri(0, 5); c->mtotal = ri(0, c->age); c->exp = ri(0, 30);
            clset_add(&x.pset, c);
        }
        for (int rep = 0; rep < 6; ++rep) {
            double v[2] = { rd(x.cond->min, x.cond->max), rd(x.cond->min, x.cond->max) };
            if (coin()) { v[0] = x.cond->min; v[1] = x.cond->max; }
            const int pn = x.pset.num, t = ri(1, 100);
            x.time = t;
            struct Cl *old[64], *was[64];
            int no = 0, nw = 0, onum[64];
            for (struct Clist *l = x.pset.list; l; l = l->next) { if (no < 64) { onum[no] = l->cl->num; old[no++] = l->cl; } }
            clset_init(&x.mset);
            clset_init(&x.kset);
            clset_match(&x, v, true);
            int cov[4] = { 0 }, ps = 0, ns = 0;
            for (struct Clist *l = x.pset.list; l; l = l->next) {
                struct Cl *c = l->cl;
                CHK(c->num >= 1, "a rule without copies is in the population");
                ++ps; ns += c->num;
                int in = 0, prev = no >= 64;
                for (struct Clist *k = x.mset.list; k; k = k->next) { in += k->cl == c; }
                for (int i = 0; i < no; ++i) {
                    if (old[i] == c) { prev = 1; CHK(c->num <= onum[i], "covering added copies to an existing rule"); }
                }
                CHK(in <= 1, "a rule occurs %d times in the match set", in);
                const int r = ref_match(&x, c, v);
                if (r >= 0) { CHK(r == in, "a rule that %s the input is %s the match set", r ? "matches" : "does not match", in ? "in" : "not in"); }
                if (!prev) {
                    CHK(in == 1, "a rule created by covering is not in the match set");
                    CHK(c->num == 1 && c->exp == 0 && c->time == t, "a covering rule has %d copies, experience %d, time %d (now %d)", c->num, c->exp, c->time, t);
                    int others = 0;
                    for (struct Clist *k = x.mset.list; k; k = k->next) { others += k->cl != c && k->cl->action == c->action; }
                    (void) others;
                }
                if (in) { CHK(c->action >= 0 && c->action < na, "action %d of %d", c->action, na); ++cov[c->action]; }
            }
            for (struct Clist *k = x.mset.list; k; k = k->next) {
                int in = 0;
                for (struct Clist *l = x.pset.list; l; l = l->next) { in += l->cl == k->cl; }
                CHK(in == 1, "a member of the match set occurs %d times in the population", in);
            }
            for (int a = 0; a < na; ++a) { CHK(cov[a] > 0, "no rule of the match set advocates action %d of %d", a, na); }
            CHK(x.pset.size == ps && x.pset.num == ns, "population size %d numerosity %d, has %d rules with %d copies", x.pset.size, x.pset.num, ps, ns);
            CHK(ns <= (pn > x.POP_SIZE ? pn : x.POP_SIZE), "population numerosity %d, was %d, limit %d", ns, pn, x.POP_SIZE);
            (void) was; (void) nw;
            clset_free(&x.mset);
            clset_kill(&x, &x.kset);
            if (ri(0, 3) == 0) { clset_kill(&x, &x.pset); clset_init(&x.pset); }
        }
        teardown(&x);
    }
    return finish();
}
