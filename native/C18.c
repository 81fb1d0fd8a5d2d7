/* WRAP: clset_update ea clset_match pa_build clset_action clset_free clset_init */
#include "h.h"
#include "env.h"
#include "xcs_rl.h"
/* reinforcement-learning protocol against a scripted environment */
#define ML 64
#define XD 2
struct Ev { int k; const struct Set *set; double x[XD], t, pam; int cur, act; };
static struct Ev L[ML * 8];
static int nl;
static struct XCSF *X;
static double padist[16];
static void push(int k, const struct Set *s, const double *x, double t, int cur, int act)
{
    if (nl >= ML * 8) { return; }
    struct Ev *e = &L[nl++];
    memset(e, 0, sizeof(*e));
    e->k = k; e->set = s; e->t = t; e->cur = cur; e->act = act;
    if (x) { memcpy(e->x, x, sizeof(double) * XD); }
    if (k == 'p') { e->pam = X->pa[0]; for (int i = 1; i < X->n_actions; ++i) { e->pam = fmax(e->pam, X->pa[i]); } }
}
static void live(const struct Set *s, const char *what)
{
    for (const struct Clist *i = s->list; i; i = i->next) { CHK(i->cl->num > 0, "%s on a set holding a deleted rule", what); }
}
void __real_clset_update(struct XCSF *x, struct Set *s, const double *a, const double *y, const bool cur);
void __wrap_clset_update(struct XCSF *x, struct Set *s, const double *a, const double *y, const bool cur)
{
    live(s, "update");
    push('u', s, a, y[0], cur, 0);
    __real_clset_update(x, s, a, y, cur);
}
void __real_ea(struct XCSF *x, const struct Set *s);
void __wrap_ea(struct XCSF *x, const struct Set *s)
{
    live(s, "genetic algorithm");
    push('e', s, NULL, 0, 0, 0);
    __real_ea(x, s);
}
void __real_clset_match(struct XCSF *x, const double *a, const bool cover);
void __wrap_clset_match(struct XCSF *x, const double *a, const bool cover)
{
    push('m', &x->mset, a, 0, cover, 0);
    CHK(x->mset.list == NULL, "matching into a set that is not empty");
    __real_clset_match(x, a, cover);
    live(&x->mset, "match set");
}
void __real_pa_build(const struct XCSF *x, const double *a);
void __wrap_pa_build(const struct XCSF *x, const double *a)
{
    __real_pa_build(x, a);
    push('p', NULL, a, 0, 0, 0);
    memcpy(padist, x->pa, sizeof(double) * x->n_actions);
}
void __real_clset_action(struct XCSF *x, const int a);
void __wrap_clset_action(struct XCSF *x, const int a) { push('a', &x->aset, NULL, 0, 0, a); __real_clset_action(x, a); }
void __real_clset_init(struct Set *s);
void __wrap_clset_init(struct Set *s)
{
    CHK(!X || (s != &X->mset && s != &X->kset && s != &X->prev_aset) || s->list == NULL, "a set is overwritten while it still holds rules");
    __real_clset_init(s);
}
void __real_clset_free(struct Set *s);
void __wrap_clset_free(struct Set *s) { __real_clset_free(s); }

/* environment */
static double ST[ML][XD], RW[ML];
static int DN[ML], AC[ML], step_, nst, resets, multi, gets;
static double maxp;
static double lastpa[ML][16];
static bool e_done(const struct XCSF *x) { return step_ > 0 && DN[step_ - 1]; }
static bool e_multi(const struct XCSF *x) { return multi; }
static double e_exec(const struct XCSF *x, const int a)
{
    CHK(step_ < ML && !(step_ > 0 && DN[step_ - 1]), "acts after the end of the problem");
    CHK(a >= 0 && a < x->n_actions, "invalid action %d", a);
    AC[step_] = a;
    memcpy(lastpa[step_], x->pa, sizeof(double) * x->n_actions);
    push('x', NULL, NULL, 0, 0, a);
    return RW[step_++];
}
static double e_max(const struct XCSF *x) { return maxp; }
static double buf[XD];
static const double *e_state(const struct XCSF *x) { memcpy(buf, ST[step_ < ML ? step_ : 0], sizeof(buf)); ++gets; return buf; }
static void e_free(const struct XCSF *x) {}
static void e_reset(const struct XCSF *x) { step_ = 0; ++resets; push('r', NULL, NULL, 0, 0, 0); }
static const struct EnvVtbl VT = { e_done, e_multi, e_exec, e_max, e_state, e_free, e_reset };

static void script(int tele)
{
    const int len = ri(1, tele + 2);
    for (int i = 0; i < ML; ++i) {
        for (int j = 0; j < XD; ++j) { ST[i][j] = rd(0, 1); }
        RW[i] = ri(0, 2) ? 0 : rv();
        DN[i] = i == len - 1;
    }
}
static int at;
static struct Ev *next(int k, const char *what)
{
    CHK(at < nl && L[at].k == k, "expected %s, got event '%c'", what, at < nl ? L[at].k : '-');
    return &L[at++];
}
static void samex(const struct Ev *e, const double *s, const char *what)
{
    for (int j = 0; j < XD; ++j) { CHK(e->x[j] == s[j], "%s uses a wrong state", what); }
}
static double ref_err;
/* checks one trial of the log; returns its performance */
static double trial(struct XCSF *x, int explore, int *hadprev_known)
{
    next('r', "reset");
    double pr = 0, ppred = 0;
    int done = 0, t = 0;
    while (t < x->TELETRANSPORTATION && !done) {
        struct Ev *m = next('m', "match");
        samex(m, ST[t], "matching");
        CHK(m->cur == 1, "matching without covering");
        struct Ev *p = next('p', "prediction");
        samex(p, ST[t], "prediction");
        const double best = p->pam;
        struct Ev *e = next('x', "execution");
        done = DN[t];
        struct Ev *a = next('a', "action set");
        CHK(a->act == e->act, "action set of another action than the executed one");
        if (t > 0) {
            struct Ev *u = next('u', "update of the previous action set");
            CHK(u->set == &x->prev_aset, "updates the wrong set");
            EQ(u->t, pr + x->GAMMA * best, "target of the previous action set");
            samex(u, ST[t - 1], "update of the previous set");
            CHK(u->cur == 0, "previous predictions not recomputed");
            if (explore) { CHK(next('e', "rule discovery")->set == &x->prev_aset, "rule discovery in the wrong set"); }
        }
        if (done) {
            struct Ev *u = next('u', "update of the action set");
            CHK(u->set == &x->aset, "updates the wrong set");
            EQ(u->t, RW[t], "target at the end");
            samex(u, ST[t], "update");
            if (explore) { CHK(next('e', "rule discovery")->set == &x->aset, "rule discovery in the wrong set"); }
        }
        pr = RW[t];
        ++t;
    }
    return multi ? t : (pr > 0 ? 1 : 0);
}
static void closed(const struct XCSF *x)
{
    CHK(!x->mset.list && !x->kset.list && !x->prev_aset.list, "a working set is left in use");
}
int main(int argc, char **argv)
{
    start(argc, argv, "C18");
    while (more()) {
        struct XCSF x;
        X = NULL;
        const int na = ri(1, 3);
        setup(&x, XD, 1, na);
        cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
        pred_param_set_type(&x, coin() ? PRED_TYPE_CONSTANT : PRED_TYPE_NLMS_LINEAR);
        param_set_pop_size(&x, ri(3, 40));
        param_set_beta(&x, rd(0.05, 1));
        param_set_gamma(&x, rd(0, 1));
        param_set_p_explore(&x, ri(0, 2) * 0.5);
        param_set_teletransportation(&x, ri(1, 8));
        param_set_max_trials(&x, 1);
        param_set_perf_trials(&x, 1000);
        param_set_set_subsumption(&x, coin());
        param_set_theta_sub(&x, ri(0, 5));
        param_set_e0(&x, 0.2);
        ea_param_set_theta(&x, ri(0, 3));
        ea_param_set_subsumption(&x, coin());
        param_set_loss_func_string(&x, "mae");
        X = &x;
        x.env_vptr = &VT;
        maxp = coin() ? 1 : rd(0.5, 4);
        multi = coin();
        /* single-transition learning */
        const int nf = ri(0, 6);
        for (int k = 0; k < nf; ++k) {
            double s[XD] = { rd(0, 1), rd(0, 1) };
            const int a = ri(0, na - 1);
            const double r = rv(), e0 = x.error;
            nl = at = 0;
            const double err = xcs_rl_fit(&x, s, a, r);
            samex(next('m', "match"), s, "matching");
            next('p', "prediction");
            EQ(err, fabs(padist[a] - r), "returned error");
            EQ(x.error, e0 + (err - e0) * x.BETA, "moving average of the error");
            CHK(next('a', "action set")->act == a, "action set of another action");
            struct Ev *u = next('u', "update");
            CHK(u->set == &x.aset && u->t == r, "update towards something else than the reward");
            samex(u, s, "update");
            CHK(next('e', "rule discovery")->set == &x.aset, "rule discovery in the wrong set");
            CHK(at == nl, "more events than expected");
            CHK(x.explore, "not in training mode");
            closed(&x);
        }
        /* errors */
        for (int k = 0; k < 4; ++k) {
            struct Clist dummy; struct Set keep = x.prev_aset;
            const int hp = coin(), dn = coin(), a = ri(0, na - 1);
            x.prev_aset.list = hp ? &dummy : NULL;
            for (int i = 0; i < na; ++i) { x.pa[i] = rv(); }
            x.prev_pred = rv(); x.prev_reward = rv();
            const double r = rv(), mp = rd(0.5, 3), e0 = x.error;
            double w = 0;
            if (hp) { w += fabs(x.prev_pred - (x.prev_reward + x.GAMMA * x.pa[a])) / mp; }
            if (dn) { w += fabs(x.pa[a] - r) / mp; }
            EQ(xcs_rl_error(&x, a, r, dn, mp), w, "step error");
            EQ(x.error, e0 + (w - e0) * x.BETA, "moving average of the error");
            x.prev_aset = keep;
        }
        /* whole trials */
        for (int k = 0; k < 3; ++k) {
            script(x.TELETRANSPORTATION);
            nl = at = 0; resets = 0;
            const double perf = xcs_rl_exp(&x);
            trial(&x, 1, NULL);
            const double w = trial(&x, 0, NULL);
            CHK(at == nl, "more events than expected");
            EQ(perf, w, "performance of the exploitation trial");
            CHK(!x.explore, "last trial was not an exploitation trial");
            if (x.P_EXPLORE >= 0) { const int t = step_ - 1; int b = 0; for (int i = 0; i < na; ++i) { b |= lastpa[t][i] > lastpa[t][AC[t]]; }
                CHK(!b, "exploitation did not take a best action"); }
            closed(&x);
        }
        X = NULL;
        x.env_vptr = NULL;
        teardown(&x);
    }
    return finish();
}
