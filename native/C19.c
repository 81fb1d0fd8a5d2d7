/* WRAP: clset_update ea clset_match pa_build */
#include "h.h"
#include "xcs_supervised.h"
/* supervised protocol: every presentation of a sample is recorded */
#define ML 400
struct Ev { int k, cur; const void *set; const double *x, *y; double v; };
static struct Ev L[ML];
static int nl, at;
static struct XCSF *X;
static double lastpa[64];
static void push(int k, const void *s, const double *x, const double *y, int cur, double v)
{
    if (nl < ML) { L[nl++] = (struct Ev){ k, cur, s, x, y, v }; }
}
static void live(const struct Set *s, const char *what)
{
    for (const struct Clist *i = s->list; i; i = i->next) { CHK(i->cl->num > 0, "%s on a set holding a deleted rule", what); }
}
void __real_clset_update(struct XCSF *x, struct Set *s, const double *a, const double *y, const bool cur);
void __wrap_clset_update(struct XCSF *x, struct Set *s, const double *a, const double *y, const bool cur)
{
    live(s, "update"); push('u', s, a, y, cur, 0);
    __real_clset_update(x, s, a, y, cur);
}
void __real_ea(struct XCSF *x, const struct Set *s);
void __wrap_ea(struct XCSF *x, const struct Set *s) { live(s, "genetic algorithm"); push('e', s, NULL, NULL, 0, 0); __real_ea(x, s); }
void __real_clset_match(struct XCSF *x, const double *a, const bool cover);
void __wrap_clset_match(struct XCSF *x, const double *a, const bool cover)
{
    CHK(x->mset.list == NULL, "matching into a set that is not empty");
    push('m', &x->mset, a, NULL, cover, 0);
    __real_clset_match(x, a, cover);
    L[nl - 1].v = x->mset.size;
    live(&x->mset, "match set");
}
void __real_pa_build(const struct XCSF *x, const double *a);
void __wrap_pa_build(const struct XCSF *x, const double *a) { __real_pa_build(x, a); push('p', NULL, a, NULL, 0, 0); memcpy(lastpa, x->pa, sizeof(double) * x->pa_size); }
static double rec_loss(const struct XCSF *x, const double *p, const double *y)
{
    double e = 0;
    for (int i = 0; i < x->y_dim; ++i) { e += fabs(p[i] - y[i]); }
    if (p == x->pa) { push('l', p, NULL, y, 0, e); }
    return e;
}
static struct Ev *next(int k, const char *what)
{
    CHK(at < nl && L[at].k == k, "expected %s, got event '%c'", what, at < nl ? L[at].k : '-');
    return &L[at++];
}
/* one presentation; returns the row */
static int present(const struct Input *d, const double *xs, int xd, int train, const double *cover)
{
    struct Ev *m = next('m', "match");
    const int row = (int) ((m->x - xs) / xd);
    CHK(m->x == xs + (size_t) row * xd && row >= 0, "input is not a row of the data");
    CHK(m->cur == (cover == NULL), "covering with a default or no covering without one");
    if (cover == NULL || m->v > 0) { CHK(next('p', "prediction")->x == m->x, "prediction for another input"); }
    if (train) {
        struct Ev *u = next('u', "update");
        CHK(u->set == &X->mset && u->x == m->x && u->y == d->y + (size_t) row * d->y_dim, "update with another sample's input or target");
        CHK(next('e', "rule discovery")->set == &X->mset, "rule discovery in the wrong set");
    }
    return row;
}
static double judge(const struct Input *d, int row)
{
    struct Ev *l = next('l', "loss");
    CHK(l->y == d->y + (size_t) row * d->y_dim, "loss against another sample's target");
    return l->v;
}
static void closed(void) { CHK(!X->mset.list && !X->kset.list, "a working set is left in use"); }
static struct Input data(int n, int xd, int yd)
{
    struct Input d = { malloc(sizeof(double) * n * xd), malloc(sizeof(double) * n * yd), xd, yd, n };
    for (int i = 0; i < n * xd; ++i) { d.x[i] = rd(0, 1); }
    for (int i = 0; i < n * yd; ++i) { d.y[i] = rv(); }
    return d;
}
int main(int argc, char **argv)
{
    start(argc, argv, "C19");
    while (more()) {
        struct XCSF x;
        X = NULL;
        const int xd = ri(1, 3), yd = ri(1, 3);
        setup(&x, xd, yd, 1);
        cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
        cond_param_set_spread_min(&x, 0.05);
        pred_param_set_type(&x, coin() ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR);
        param_set_pop_size(&x, ri(3, 30));
        param_set_beta(&x, rd(0.05, 1));
        param_set_perf_trials(&x, 1000);
        param_set_set_subsumption(&x, coin());
        param_set_theta_sub(&x, ri(0, 5));
        ea_param_set_theta(&x, ri(0, 3));
        x.loss_ptr = rec_loss;
        X = &x;
        struct Input tr = data(ri(1, 6), xd, yd), te = data(ri(1, 6), xd, yd);
        for (int k = 0; k < 3; ++k) {
            const int shuffle = coin(), startp = ri(0, 9), trials = ri(1, 6), test = coin();
            const double e0 = x.error;
            nl = at = 0;
            const double r = xcs_supervised_fit(&x, &tr, test ? &te : NULL, shuffle, startp, trials);
            double s = 0, ma = e0;
            for (int i = 0; i < trials; ++i) {
                int row = present(&tr, tr.x, xd, 1, NULL);
                CHK(row < tr.n_samples && (shuffle || row == (i + startp) % tr.n_samples), "training sample out of order");
                const double l = judge(&tr, row);
                s += l; ma += (l - ma) * x.BETA;
                if (test) {
                    row = present(&te, te.x, xd, 0, NULL);
                    CHK(row < te.n_samples && (shuffle || row == (i + startp) % te.n_samples), "test sample out of order");
                    judge(&te, row);
                }
            }
            CHK(at == nl, "more events than expected");
            EQ(r, s / trials, "returned mean loss");
            EQ(x.error, ma, "moving average of the error");
            closed();
        }
        double cover[4];
        for (int i = 0; i < yd; ++i) { cover[i] = rv(); }
        for (int k = 0; k < 4; ++k) {
            const double *cv = coin() ? cover : NULL;
            const int N = ri(1, 9);
            nl = at = 0;
            const int mode = ri(0, 2);
            if (mode == 2) {
                double *pred = malloc(sizeof(double) * yd * te.n_samples);
                double seen[64];
                xcs_supervised_predict(&x, te.x, pred, te.n_samples, cv);
                for (int i = 0; i < te.n_samples; ++i) {
                    const int m0 = at;
                    CHK(present(&te, te.x, xd, 0, cv) == i, "predicts samples out of order");
                    if (cv && L[m0].v < 1) { for (int j = 0; j < yd; ++j) { EQ(pred[i * yd + j], cv[j], "default prediction"); } }
                }
                for (int j = 0; j < yd; ++j) { if (L[nl - 1].k == 'p') { EQ(pred[(te.n_samples - 1) * yd + j], lastpa[j], "last prediction"); } }
                (void) seen;
                /* with a default nothing changes between calls: single-sample prediction must agree */
                if (cv) {
                    for (int i = 0; i < te.n_samples; ++i) {
                        double one[4];
                        xcs_supervised_predict(&x, te.x + i * xd, one, 1, cv);
                        for (int j = 0; j < yd; ++j) { EQ(pred[i * yd + j], one[j], "prediction of a sample depends on its position"); }
                    }
                } else { CHK(at == nl, "more events than expected"); }
                free(pred);
            } else {
                const double r = mode ? xcs_supervised_score(&x, &te, cv) : xcs_supervised_score_n(&x, &te, N, cv);
                const int n = mode || N > te.n_samples ? te.n_samples : N;
                double s = 0;
                for (int i = 0; i < n; ++i) {
                    const int row = present(&te, te.x, xd, 0, cv);
                    CHK(row < te.n_samples && (row == i || n != te.n_samples || (!mode && N <= te.n_samples)), "scores samples out of order");
                    s += judge(&te, row);
                }
                CHK(at == nl, "more events than expected");
                EQ(r, s / n, "score");
            }
            CHK(!x.explore, "scoring in training mode");
            closed();
        }
        X = NULL;
        free(tr.x); free(tr.y); free(te.x); free(te.y);
        teardown(&x);
    }
    return finish();
}
