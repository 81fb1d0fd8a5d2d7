#include "h.h"
/* genetic algorithm */
#define MX 32
static struct Cl *P[MX];
static struct Cl S[MX];
static int np_;
static int idx(const struct Cl *c) { for (int i = 0; i < np_; ++i) { if (P[i] == c) { return i; } } return -1; }
static int ag(const struct Cl *c) { return ((const struct ActInteger *) c->act)->action; }
static int same(const struct XCSF *x, const struct Cl *a, const struct Cl *b)
{
    if (ag(a) != ag(b) && x->n_actions > 1) { return 0; }
    if (x->cond->type == COND_TYPE_TERNARY) {
        const struct CondTernary *p = a->cond, *q = b->cond;
        return memcmp(p->string, q->string, p->length) == 0;
    }
    const struct CondRectangle *p = a->cond, *q = b->cond;
    for (int i = 0; i < x->x_dim; ++i) { if (p->b1[i] != q->b1[i] || p->b2[i] != q->b2[i]) { return 0; } }
    return 1;
}
int main(int argc, char **argv)
{
    start(argc, argv, "C15");
    while (more()) {
        struct XCSF x;
        const int na = ri(1, 3);
        setup(&x, ri(1, 2), 1, na);
        const int tern = coin();
        cond_param_set_type(&x, tern ? COND_TYPE_TERNARY : COND_TYPE_HYPERRECTANGLE_CSR);
        cond_param_set_bits(&x, ri(1, 3));
        pred_param_set_type(&x, PRED_TYPE_CONSTANT);
        cond_param_set_eta(&x, 0);
        const int lambda = coin() ? 2 : ri(1, 6);
        const int roul = coin();
        ea_param_set_lambda(&x, lambda);
        ea_param_set_select_type(&x, roul ? EA_SELECT_ROULETTE : EA_SELECT_TOURNAMENT);
        ea_param_set_select_size(&x, coin() ? 1 : rd(0.2, 1));
        ea_param_set_p_crossover(&x, ri(0, 2) * 0.5);
        ea_param_set_theta(&x, ri(0, 20));
        ea_param_set_subsumption(&x, coin());
        ea_param_set_err_reduc(&x, coin() ? 1 : rd(0.1, 1));
        ea_param_set_fit_reduc(&x, coin() ? 0.1 : rd(0.1, 1));
        param_set_theta_sub(&x, ri(0, 20));
        param_set_e0(&x, 0.3);
        const int n = ri(0, 8);
        clset_init(&x.pset); clset_init(&x.kset);
        struct Set set;
        clset_init(&set);
        np_ = 0;
        const int heavy = coin() && n > 0 ? ri(0, n - 1) : -1;
        for (int i = 0; i < n; ++i) {
            struct Cl *c = newcl(&x);
            struct CondRectangle *p = c->cond;
            for (int j = 0; j < x.x_dim && !tern; ++j) { p->b1[j] = rd(0, 1); p->b2[j] = rd(0.05, 1.5); }
            ((struct ActInteger *) c->act)->action = c->action = ri(0, na - 1);
            c->num = ri(1, 4); c->exp = ri(0, 30); c->err = coin() ? ri(0, 4) * 0.2 : rd(0, 1);
            c->fit = rd(0.01, 1);
            if (heavy >= 0) { c->fit = i == heavy ? 1 : 1e-12; }
            c->time = ri(0, 40); c->age = ri(0, 10); c->mtotal = c->age;
            clset_add(&x.pset, c);
            if (ri(0, 3) || i == heavy) { clset_add(&set, c); }
            P[np_++] = c;
        }
        const int room = coin();
        param_set_pop_size(&x, room ? 1000 : x.pset.num + ri(0, 3));
        if (x.POP_SIZE < 1) { param_set_pop_size(&x, 1); }
        x.time = ri(10, 60);
        for (int rep = 0; rep < 1; ++rep) {
            double mt = 0, fs = 0, mx = -1;
            int m = 0, cn = 0;
            int inset[MX] = { 0 };
            for (struct Clist *l = set.list; l; l = l->next) {
                mt += (double) l->cl->time * l->cl->num; cn += l->cl->num; ++m; inset[idx(l->cl)] = 1;
                fs += l->cl->fit; mx = fmax(mx, l->cl->fit);
            }
            if (m) { mt /= cn; }
            for (int i = 0; i < np_; ++i) { S[i] = *P[i]; }
            const int t0 = x.time, n0 = x.pset.num;
            if (m && fabs(t0 + 1 - mt - x.ea->theta) < 1e-9 && t0 + 1 - mt != x.ea->theta) { break; }
            const int go = m > 0 && t0 + 1 - mt >= x.ea->theta;
            ea(&x, &set);
            CHK(x.time == t0 + 1, "the clock went from %d to %d", t0, x.time);
            int tot = 0, sz = 0;
            for (struct Clist *l = x.pset.list; l; l = l->next) { tot += l->cl->num; ++sz; CHK(l->cl->num >= 1, "a rule without copies"); }
            CHK(tot == x.pset.num && sz == x.pset.size, "recorded copies %d rules %d, real %d %d", x.pset.num, x.pset.size, tot, sz);
            const int want = !go ? n0 : (int) fmin(n0 + 2 * ((lambda + 1) / 2), x.POP_SIZE);
            CHK(tot == want, "%d copies after the algorithm ran on %d (%s), expected %d", tot, n0, go ? "triggered" : "not triggered", want);
            for (int i = 0; i < np_; ++i) {
                CHK(P[i]->time == (go && inset[i] ? t0 + 1 : S[i].time), "time stamp of a rule %s the set is %d at time %d, was %d", inset[i] ? "in" : "outside", P[i]->time, x.time, S[i].time);
                CHK(P[i]->err == S[i].err && P[i]->fit == S[i].fit && P[i]->exp == S[i].exp, "an existing rule's record changed");
                if (!inset[i]) { CHK(P[i]->num <= S[i].num, "a rule outside the set gained copies"); }
                if (heavy >= 0 && roul && room && !x.ea->subsumption && i != heavy) {
                    CHK(P[i]->num == S[i].num, "a rule with a 1e-12 share of the fitness was selected");
                }
                if (!roul && x.ea->select_size == 1 && room && !x.ea->subsumption && S[i].fit < mx) {
                    CHK(P[i]->num == S[i].num, "a tournament over the whole set picked a rule that is not the fittest");
                }
                if (room && P[i]->num > S[i].num && x.ea->p_crossover == 1 && n > 1) { ; }
            }
            for (struct Clist *l = x.pset.list; l; l = l->next) {
                struct Cl *c = l->cl;
                if (idx(c) >= 0) { continue; }
                CHK(go, "a new rule although the algorithm must not run");
                CHK(c->exp == 0 && c->time == t0 + 1 && c->num == 1, "an offspring has experience %d, time %d (now %d), %d copies", c->exp, c->time, x.time, c->num);
                int ok = 0, okf = lambda > 2;
                for (int i = 0; i < np_; ++i) {
                    if (!inset[i]) { continue; }
                    if (x.ea->p_crossover == 0 && (!tern || m == 1)) { CHK(!same(&x, c, P[i]), "an offspring identical to a parent entered as a new rule"); }
                    if (!tern && x.ea->subsumption && S[i].exp > x.THETA_SUB && S[i].err < x.E0 && (na == 1 || ag(c) == ag(P[i]))) {
                        int gen = 1;
                        const struct CondRectangle *p = P[i]->cond, *q = c->cond;
                        for (int j = 0; j < x.x_dim; ++j) {
                            if (p->b1[j] - p->b2[j] > q->b1[j] - q->b2[j] || p->b1[j] + p->b2[j] < q->b1[j] + q->b2[j]) { gen = 0; }
                        }
                        CHK(!gen, "an offspring that a member of the set subsumes entered as a new rule");
                    }
                    const int top = (!roul && x.ea->select_size == 1);
                    if ((top && S[i].fit < mx) || (roul && heavy >= 0 && i != heavy)) { continue; }
                    for (int j = 0; j < np_; ++j) {
                        if (!inset[j]) { continue; }
                        if ((top && S[j].fit < mx) || (roul && heavy >= 0 && j != heavy)) { continue; }
                        const double e1 = x.ea->err_reduc * S[i].err, e2 = x.ea->err_reduc * 0.5 * (S[i].err + S[j].err);
                        const double f1 = x.ea->fit_reduc * S[i].fit / S[i].num, f2 = x.ea->fit_reduc * 0.5 * (S[i].fit / S[i].num + S[j].fit / S[j].num);
                        if (near(c->err, e1) && x.ea->p_crossover < 1) { ok = 1; }
                        if (near(c->err, e2)) { ok = 1; }
                        if (near(c->err, e1) && (fabs(c->fit - f1) <= 1e-9 * f1)) { okf = 1; }
                        if (near(c->err, e2) && (fabs(c->fit - f2) <= 1e-9 * f2)) { okf = 1; }
                    }
                }
                CHK(ok, "the error %g of an offspring is not that of any pair of parents", c->err);
                CHK(okf, "the fitness %g of an offspring is not that of any pair of parents", c->fit);
            }
        }
        clset_free(&set);
        teardown(&x);
    }
    return finish();
}
