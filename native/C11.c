#include "h.h"
/* match and action sets */
int main(int argc, char **argv)
{
    start(argc, argv, "C11");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 3), 1, ri(1, 4));
        condcfg(&x);
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        param_set_pop_size(&x, ri(1, 40));
        param_set_beta(&x, ri(1, 4) * 0.25);
        struct Cl *c[12];
        const int n = ri(0, 10);
        for (int i = 0; i < n; ++i) {
            c[i] = newcl(&x);
            scramble(&x, c[i]);
            ((struct ActInteger *) c[i]->act)->action = ri(0, x.n_actions - 1);
            c[i]->action = ri(0, x.n_actions - 1);
            c[i]->m = coin();
            c[i]->age = ri(0, 9);
            c[i]->mtotal = ri(0, 3);
            c[i]->num = ri(1, 3);
            clset_add(&x.pset, c[i]);
        }
        for (int rep = 0; rep < 3; ++rep) {
            double v[3] = { rv(), rv(), rv() };
            int age[12], mt[12], num[12];
            for (int i = 0; i < n; ++i) { age[i] = c[i]->age; mt[i] = c[i]->mtotal; num[i] = c[i]->num; }
            const int ps = x.pset.size, pn = x.pset.num;
            const double ms = x.mset_size, as = x.aset_size;
            struct Clist *head = x.pset.list;
            clset_init(&x.mset);
            clset_match(&x, v, false);
            CHK(x.pset.size == ps && x.pset.num == pn && x.pset.list == head, "matching without covering changed the population");
            int want = 0, wnum = 0;
            for (int i = 0; i < n; ++i) {
                int in = 0;
                for (struct Clist *l = x.mset.list; l; l = l->next) { in += l->cl == c[i]; }
                const int r = ref_match(&x, c[i], v);
                if (r >= 0) { CHK(in == r, "rule %d: matches %d, occurs %d times in the match set", i, r, in); }
                CHK(c[i]->m == in, "rule %d: match flag %d, in the set %d", i, c[i]->m, in);
                CHK(c[i]->age == age[i] + 1 && c[i]->mtotal == mt[i] + in, "rule %d: age %d -> %d, matched %d -> %d", i, age[i], c[i]->age, mt[i], c[i]->mtotal);
                CHK(c[i]->num == num[i], "rule %d: copies %d -> %d", i, num[i], c[i]->num);
                if (in) { CHK(c[i]->action == ((struct ActInteger *) c[i]->act)->action, "rule %d: advocates %d, its action is %d", i, c[i]->action, ((struct ActInteger *) c[i]->act)->action); }
                want += in;
                wnum += in * num[i];
            }
            CHK(x.mset.size == want, "match set size %d, has %d rules", x.mset.size, want);
            CHK(x.mset.num == wnum, "match set numerosity %d, rules have %d copies", x.mset.num, wnum);
            EQ(x.mset_size, ms + (want - ms) * x.BETA, "average match set size");
            const int a = ri(0, x.n_actions - 1);
            clset_init(&x.aset);
            clset_action(&x, a);
            want = wnum = 0;
            for (int i = 0; i < n; ++i) {
                int in = 0;
                for (struct Clist *l = x.aset.list; l; l = l->next) { in += l->cl == c[i]; }
                CHK(in == (c[i]->m && c[i]->action == a), "rule %d: matches %d, action %d, occurs %d times in the set of action %d", i, c[i]->m, c[i]->action, in, a);
                want += in;
                wnum += in * num[i];
            }
            CHK(x.aset.size == want && x.aset.num == wnum, "action set size %d numerosity %d, has %d rules with %d copies", x.aset.size, x.aset.num, want, wnum);
            EQ(x.aset_size, as + (want - as) * x.BETA, "average action set size");
            clset_free(&x.mset);
            clset_free(&x.aset);
        }
        teardown(&x);
    }
    return finish();
}
