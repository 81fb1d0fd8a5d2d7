#include "h.h"
/* set subsumption */
int main(int argc, char **argv)
{
    start(argc, argv, "C14");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 2), 1, ri(1, 2));
        condcfg(&x);
        if (ri(0, 2)) { cond_param_set_type(&x, CTYPES[ri(0, 1)]); }
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        param_set_theta_sub(&x, ri(0, 4));
        param_set_e0(&x, ri(1, 4) * 0.25);
        param_set_beta(&x, 1);
        param_set_set_subsumption(&x, ri(0, 5) != 0);
        struct Cl *c[8];
        struct Cl snap[8];
        const int n = ri(1, 6);
        clset_init(&x.aset);
        clset_init(&x.kset);
        int member[8];
        for (int i = n - 1; i >= 0; --i) {
            c[i] = newcl(&x);
            scramble(&x, c[i]);
            if (i < n - 1 && coin()) { cond_free(&x, c[i]); cond_copy(&x, c[i], c[i + 1]); }
            ((struct ActInteger *) c[i]->act)->action = c[i]->action = ri(0, 3) ? 0 : x.n_actions - 1;
            c[i]->num = ri(1, 3);
            c[i]->exp = ri(0, 6);
            c[i]->prediction[0] = ri(0, 4) * 0.25;
            clset_add(&x.pset, c[i]);
            member[i] = ri(0, 4) != 0;
        }
        for (int i = n - 1; i >= 0; --i) { if (member[i]) { clset_add(&x.aset, c[i]); } }
        double v[2] = { rv(), rv() }, y[1] = { 0 };
        const int pn = x.pset.num, an = x.aset.num;
        for (int i = 0; i < n; ++i) { snap[i] = *c[i]; }
        clset_update(&x, &x.aset, v, y, true);
        CHK(x.pset.num == pn, "population numerosity %d -> %d", pn, x.pset.num);
        CHK(x.aset.num == an, "set numerosity %d -> %d", an, x.aset.num);
        int w = -1, gained = 0, lost = 0;
        for (int i = 0; i < n; ++i) {
            if (c[i]->num > snap[i].num) { CHK(w < 0, "two rules gained copies"); w = i; gained = c[i]->num - snap[i].num; }
        }
        for (int i = 0; i < n; ++i) {
            int inp = 0, ina = 0, ink = 0;
            for (struct Clist *l = x.pset.list; l; l = l->next) { inp += l->cl == c[i]; }
            for (struct Clist *l = x.aset.list; l; l = l->next) { ina += l->cl == c[i]; }
            for (struct Clist *l = x.kset.list; l; l = l->next) { ink += l->cl == c[i]; }
            if (c[i]->num < snap[i].num) {
                CHK(c[i]->num == 0, "a rule lost some of its copies only");
                CHK(member[i], "a rule outside the set was subsumed");
                CHK(w >= 0, "a rule vanished but none took over its copies");
                CHK(cl_general(&x, c[w], c[i]), "rule %d was subsumed by rule %d, which is not more general", i, w);
                lost += snap[i].num;
                CHK(!inp && !ina && ink == 1, "a subsumed rule is not only in the kill list (%d %d %d)", inp, ina, ink);
            } else {
                CHK(inp == 1 && ina == member[i] && ink == 0, "rule %d: population %d set %d kill list %d", i, inp, ina, ink);
            }
        }
        CHK(gained == lost, "%d copies lost, %d gained", lost, gained);
        if (w >= 0) {
            CHK(x.SET_SUBSUMPTION, "subsumption although switched off");
            CHK(member[w], "the subsumer is not in the set");
            CHK(c[w]->exp > x.THETA_SUB && c[w]->err < x.E0, "the subsumer has experience %d (limit %d), error %g (limit %g)", c[w]->exp, x.THETA_SUB, c[w]->err, x.E0);
        } else if (x.SET_SUBSUMPTION) {
            /* nobody subsumed: no able rule has anything to subsume unless a more general able one exists */
            for (int i = 0; i < n; ++i) {
                int able = 0;
                for (int j = 0; j < n; ++j) { able += member[j] && c[j]->exp > x.THETA_SUB && c[j]->err < x.E0; }
                if (able == 1 && member[i] && c[i]->exp > x.THETA_SUB && c[i]->err < x.E0) {
                    for (int j = 0; j < n; ++j) {
                        CHK(j == i || !member[j] || !cl_general(&x, c[i], c[j]), "rule %d could have subsumed rule %d but did not", i, j);
                    }
                }
            }
        }
        clset_free(&x.aset);
        clset_kill(&x, &x.kset);
        teardown(&x);
    }
    return finish();
}
