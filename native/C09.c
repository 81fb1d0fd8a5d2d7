#include "h.h"
/* which rule loses a copy when the population is over its limit */
int main(int argc, char **argv)
{
    start(argc, argv, "C09");
    while (more()) {
        struct XCSF x;
        setup(&x, 2, 1, 1);
        pred_param_set_type(&x, coin() ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR);
        param_set_theta_del(&x, ri(0, 6));
        param_set_delta(&x, ri(0, 4) * 0.25);
        param_set_m_probation(&x, ri(0, 6));
        param_set_compaction(&x, coin());
        x.error = coin() ? 0 : 1;
        condcfg(&x);
        const int n = ri(1, 5);
        struct Cl *c[8];
        int num[8];
        for (int i = n - 1; i >= 0; --i) {   /* list order is the reverse of insertion */
            c[i] = newcl(&x);
            num[i] = c[i]->num = ri(1, 3);
            c[i]->exp = ri(0, 8);
            c[i]->fit = ri(1, 20) * 0.05;
            c[i]->size = ri(0, 10) * 0.5;
            c[i]->age = ri(0, 10);
            c[i]->mtotal = ri(0, 2) && c[i]->age > 0 ? ri(1, c[i]->age) : (ri(0, 2) ? 0 : 1);
            clset_add(&x.pset, c[i]);
        }
        if (ri(0, 2)) { for (int i = 0; i < n; ++i) { c[i]->mtotal = 1; } }
        double tf = 0;
        for (int i = 0; i < n; ++i) { tf += c[i]->fit; }
        const double avg = tf / x.pset.num;
        double v[8], tot = 0;
        for (int i = 0; i < n; ++i) {
            v[i] = c[i]->size * c[i]->num;
            if (c[i]->exp > x.THETA_DEL && c[i]->fit / c[i]->num < x.DELTA * avg) { v[i] *= avg / (c[i]->fit / c[i]->num); }
            CHK(near(cl_del_vote(&x, c[i], avg), v[i]) || fabs(c[i]->fit / c[i]->num - x.DELTA * avg) < 1e-9,
                "deletion vote %.17g, expected %.17g", cl_del_vote(&x, c[i], avg), v[i]);
            v[i] = cl_del_vote(&x, c[i], avg);
            tot += v[i];
        }
        const int seed = ri(1, 1000000);
        rand_init_seed(seed);
        int want = -1;
        for (int i = 0; i < n && want < 0; ++i) { if (c[i]->mtotal == 0 && c[i]->age > x.M_PROBATION) { want = i; } }
        if (want < 0) {
            double best = 0;
            for (int s = 0; s < (x.COMPACTION && x.error < x.E0 ? 2 : 1); ++s) {
                const double p = rand_uniform(0, tot);
                int i = 0;
                double sum = v[0];
                while (p > sum && i < n - 1) { sum += v[++i]; }
                const double sz = cl_cond_size(&x, c[i]) + cl_pred_size(&x, c[i]);
                if (want < 0 || sz > best) { want = i; best = sz; }
            }
        }
        rand_init_seed(seed);
        x.POP_SIZE = x.pset.num - 1;
        clset_init(&x.kset);
        clset_pset_enforce_limit(&x);
        for (int i = 0; i < n; ++i) {
            const int exp = num[i] - (i == want);
            int in = 0;
            for (struct Clist *l = x.pset.list; l; l = l->next) { in += l->cl == c[i]; }
            CHK(in == (exp > 0), "rule %d of %d: expected %d copies (deleted rule should be %d), in population: %d", i, n, exp, want, in);
            if (in) { CHK(c[i]->num == exp, "rule %d of %d has %d copies, expected %d (deleted should be %d)", i, n, c[i]->num, exp, want); }
        }
        clset_kill(&x, &x.kset);
        teardown(&x);
    }
    return finish();
}
