#include "h.h"
#include "dgp.h"
#include "gp.h"
#include "neural_layer_args.h"
/* every parameter setter: in range stored, out of range refused (or clamped), nothing else touched */
struct Snap { struct XCSF x; struct ArgsEA ea; struct ArgsAct act; struct ArgsCond cond; struct ArgsPred pred; struct ArgsGPTree t; struct ArgsDGP d; };
static struct Snap s0;
static void snap(const struct XCSF *x, struct Snap *s)
{
    memset(s, 0, sizeof(*s));
    memcpy(&s->x, x, sizeof(*x)); memcpy(&s->ea, x->ea, sizeof(s->ea)); memcpy(&s->act, x->act, sizeof(s->act)); memcpy(&s->cond, x->cond, sizeof(s->cond));
    memcpy(&s->pred, x->pred, sizeof(s->pred)); memcpy(&s->t, x->cond->targs, sizeof(s->t)); memcpy(&s->d, x->cond->dargs, sizeof(s->d));
}
static void others(const struct XCSF *x, const char *fn)
{
    struct Snap s;
    snap(x, &s);
    if (memcmp(&s, &s0, sizeof(s))) { fail("%s changed something else", fn); }
}
static double pick(double lo, double hi, int real)
{
    double v;
    switch (ri(0, 6)) {
        case 0: v = (isfinite(lo) ? lo : -3) - (real ? 1e-9 : 1); break;
        case 1: v = isfinite(lo) ? lo : -5; break;
        case 2: v = isfinite(hi) ? hi : 100000; break;
        case 3: v = (isfinite(hi) ? hi : 7) + (real ? 1e-9 : 1); break;
        case 4: v = ri(-3, 3); break;
        case 5: v = real ? rd(-0.5, 1.5) : ri(-2, 1200); break;
        default: v = (isfinite(lo) ? lo : 0) + (real ? 1e-9 : 1); break;
    }
    return v;
}
#define PRE(tgt, lo, hi) \
    const int real = __builtin_types_compatible_p(typeof(tgt), double), isb = __builtin_types_compatible_p(typeof(tgt), bool); \
    const double v = isb ? coin() : pick(lo, hi, real); \
    typeof(tgt) before = tgt; snap(&x, &s0);
#define POST(fn, tgt, want) \
    if (tgt != (want)) { fail("%s(%.17g): the parameter is %.17g, expected %.17g", #fn, v, (double) tgt, (double) (want)); } \
    typeof(tgt) keep = tgt; tgt = before; others(&x, #fn); tgt = keep;
#define SR(fn, arg, tgt, lo, hi) { PRE(tgt, lo, hi) const char *r = fn(arg, v); const int ok = v >= lo && v <= hi; \
    if (ok != (r == NULL)) { fail("%s(%.17g) %s", #fn, v, r ? r : "was accepted"); } POST(fn, tgt, ok ? (typeof(tgt)) v : before) }
#define SC(fn, arg, tgt, lo, hi) { PRE(tgt, lo, hi) fn(arg, v); POST(fn, tgt, (typeof(tgt)) (v < lo ? lo : v > hi ? hi : v)) }
static void ranges(const struct XCSF *x)
{
    CHK(x->OMP_NUM_THREADS >= 1 && x->MAX_TRIALS >= 1 && x->PERF_TRIALS >= 1 && x->POP_SIZE >= 1 && x->HUBER_DELTA >= 0 && x->GAMMA >= 0 && x->GAMMA <= 1 && x->TELETRANSPORTATION >= 1 &&
        x->P_EXPLORE >= 0 && x->P_EXPLORE <= 1 && x->ALPHA >= 0 && x->ALPHA <= 1 && x->BETA >= 0 && x->BETA <= 1 && x->DELTA >= 0 && x->DELTA <= 1 && x->E0 >= 0 && x->INIT_ERROR >= 0 &&
        x->INIT_FITNESS >= 0 && x->NU >= 0 && x->THETA_DEL >= 0 && x->M_PROBATION >= 0 && x->THETA_SUB >= 0, "a default parameter is out of range");
    CHK(x->ea->select_size >= 0 && x->ea->select_size <= 1 && x->ea->theta >= 0 && x->ea->p_crossover >= 0 && x->ea->p_crossover <= 1 && x->ea->lambda >= 2 && x->ea->err_reduc >= 0 && x->ea->err_reduc <= 1 &&
        x->ea->fit_reduc >= 0 && x->ea->fit_reduc <= 1, "a default parameter of the EA is out of range");
    CHK(x->cond->eta >= 0 && x->cond->eta <= 1 && x->cond->p_dontcare >= 0 && x->cond->p_dontcare <= 1 && x->cond->spread_min >= 0 && x->cond->bits >= 1 && x->cond->min <= x->cond->max, "a default parameter of conditions is out of range");
    CHK(x->pred->eta >= 0 && x->pred->eta <= 1 && x->pred->eta_min >= 0 && x->pred->eta_min <= x->pred->eta, "a default parameter of predictions is out of range");
    const struct ArgsLayer *ls[] = { x->cond->largs, x->pred->largs, x->act->largs };
    for (int k = 0; k < 3; ++k) {
        CHK(ls[k] && ls[k]->n_inputs == x->x_dim, "default layers do not take the inputs");
        for (const struct ArgsLayer *l = ls[k]; l->next; l = l->next) { CHK(l->next->n_inputs == l->n_init, "default layers do not fit"); }
    }
    const struct ArgsLayer *l = x->pred->largs; while (l->next) { l = l->next; } CHK(l->n_init == x->y_dim, "default prediction layers do not give the outputs");
    l = x->act->largs; while (l->next) { l = l->next; } CHK(l->n_init == x->n_actions, "default action layers do not give the actions");
    const struct ArgsGPTree *t = x->cond->targs;
    CHK(t->n_inputs == x->x_dim && t->n_constants >= 1 && t->init_depth >= 1 && t->max_len >= 1, "default tree parameters");
    for (int i = 0; i < t->n_constants; ++i) { CHK(t->constants[i] >= t->min && t->constants[i] <= t->max, "a tree constant is out of range"); }
    const struct ArgsDGP *d = x->cond->dargs;
    CHK(d->n_inputs == x->x_dim && d->n >= 1 && d->max_k >= 1 && d->max_t >= 1, "default graph parameters");
}
static const char *CN[] = { "dummy", "hyperrectangle_csr", "hyperrectangle_ubr", "hyperellipsoid", "neural", "tree_gp", "dgp", "ternary", "", "", "", "rule_dgp", "rule_neural", "rule_network" };
static const char *PN[] = { "constant", "nlms_linear", "nlms_quadratic", "rls_linear", "rls_quadratic", "neural" };
static const char *AN[] = { "integer", "neural" };
static const char *EN[] = { "roulette", "tournament" };
static const char *LN[] = { "mae", "mse", "rmse", "log", "binary_log", "onehot", "huber" };
#define NM(tab, n, name, val) { val = -1; for (int _k = 0; _k < (n); ++_k) { if (tab[_k][0] && !strcmp(tab[_k], name)) { val = _k; } } }
static void names(struct XCSF *x)
{
    char b[40];
    const char **all[] = { CN, PN, AN, EN, LN };
    static const int sz[] = { 14, 6, 2, 2, 7 };
    const int g = ri(0, 4);
    snprintf(b, sizeof(b), "%s", all[g][ri(0, sz[g] - 1)]);
    switch (ri(0, 5)) {
        case 0: { const int n = (int) strlen(b); if (n) { b[n - 1] = 0; } break; }
        case 1: strcat(b, coin() ? "x" : "_"); break;
        case 2: { const int n = (int) strlen(b); if (n) { b[ri(0, n - 1)] ^= 1; } break; }
        default: break;
    }
    int w;
    NM(CN, 14, b, w) CHK(condition_type_as_int(b) == w, "condition '%s' is %d", b, condition_type_as_int(b));
    int old = x->cond->type; CHK(cond_param_set_type_string(x, b) == w && x->cond->type == (w < 0 ? old : w), "choosing condition '%s'", b);
    if (w >= 0) { CHK(!strcmp(condition_type_as_string(w), b), "name of condition %d", w); }
    NM(PN, 6, b, w) CHK(prediction_type_as_int(b) == w, "prediction '%s' is %d", b, prediction_type_as_int(b));
    old = x->pred->type; CHK(pred_param_set_type_string(x, b) == w && x->pred->type == (w < 0 ? old : w), "choosing prediction '%s'", b);
    if (w >= 0) { CHK(!strcmp(prediction_type_as_string(w), b), "name of prediction %d", w); }
    NM(AN, 2, b, w) CHK(action_type_as_int(b) == w, "action '%s' is %d", b, action_type_as_int(b));
    old = x->act->type; CHK(action_param_set_type_string(x, b) == w && x->act->type == (w < 0 ? old : w), "choosing action '%s'", b);
    if (w >= 0) { CHK(!strcmp(action_type_as_string(w), b), "name of action %d", w); }
    NM(EN, 2, b, w) CHK(ea_type_as_int(b) == w, "selection '%s' is %d", b, ea_type_as_int(b));
    old = x->ea->select_type; CHK(ea_param_set_type_string(x, b) == w && x->ea->select_type == (w < 0 ? old : w), "choosing selection '%s'", b);
    if (w >= 0) { CHK(!strcmp(ea_type_as_string(w), b), "name of selection %d", w); }
    NM(LN, 7, b, w) CHK(loss_type_as_int(b) == w, "loss '%s' is %d", b, loss_type_as_int(b));
    old = x->LOSS_FUNC; CHK(param_set_loss_func_string(x, b) == (w < 0 ? PARAM_INVALID : PARAM_FOUND) && x->LOSS_FUNC == (w < 0 ? old : w), "choosing loss '%s'", b);
    if (w >= 0) { CHK(!strcmp(loss_type_as_string(w), b), "name of loss %d", w); }
    const int a = ri(-2, 4); old = x->ea->select_type;
    CHK(ea_param_set_select_type(x, a) == (a == 0 || a == 1 ? a : EA_SELECT_INVALID) && x->ea->select_type == (a == 0 || a == 1 ? a : old), "choosing selection %d", a);
}
int main(int argc, char **argv)
{
    start(argc, argv, "C21");
    quiet();
    while (more()) {
        struct XCSF x;
        memset(&x, 0, sizeof(x));
        param_init(&x, ri(1, 4), ri(1, 3), ri(1, 5));
        ranges(&x);
        for (int rep = 0; rep < 60; ++rep) {
            switch (ri(0, 67)) {
        case 0: SR(param_set_omp_num_threads, &x, (&x)->OMP_NUM_THREADS, 1, 1000); break;
        case 1: SR(param_set_random_state, &x, (&x)->RANDOM_STATE, -INFINITY, INFINITY); break;
        case 2: SR(param_set_pop_init, &x, (&x)->POP_INIT, -INFINITY, INFINITY); break;
        case 3: SR(param_set_max_trials, &x, (&x)->MAX_TRIALS, 1, INFINITY); break;
        case 4: SR(param_set_perf_trials, &x, (&x)->PERF_TRIALS, 1, INFINITY); break;
        case 5: SR(param_set_pop_size, &x, (&x)->POP_SIZE, 1, INFINITY); break;
        case 6: SR(param_set_stateful, &x, (&x)->STATEFUL, -INFINITY, INFINITY); break;
        case 7: SR(param_set_compaction, &x, (&x)->COMPACTION, -INFINITY, INFINITY); break;
        case 8: SR(param_set_huber_delta, &x, (&x)->HUBER_DELTA, 0, INFINITY); break;
        case 9: SR(param_set_gamma, &x, (&x)->GAMMA, 0, 1); break;
        case 10: SR(param_set_teletransportation, &x, (&x)->TELETRANSPORTATION, 1, INFINITY); break;
        case 11: SR(param_set_p_explore, &x, (&x)->P_EXPLORE, 0, 1); break;
        case 12: SR(param_set_alpha, &x, (&x)->ALPHA, 0, 1); break;
        case 13: SR(param_set_beta, &x, (&x)->BETA, 0, 1); break;
        case 14: SR(param_set_delta, &x, (&x)->DELTA, 0, 1); break;
        case 15: SR(param_set_e0, &x, (&x)->E0, 0, INFINITY); break;
        case 16: SR(param_set_init_error, &x, (&x)->INIT_ERROR, 0, INFINITY); break;
        case 17: SR(param_set_init_fitness, &x, (&x)->INIT_FITNESS, 0, INFINITY); break;
        case 18: SR(param_set_nu, &x, (&x)->NU, 0, INFINITY); break;
        case 19: SR(param_set_theta_del, &x, (&x)->THETA_DEL, 0, INFINITY); break;
        case 20: SR(param_set_m_probation, &x, (&x)->M_PROBATION, 0, INFINITY); break;
        case 21: SR(param_set_set_subsumption, &x, (&x)->SET_SUBSUMPTION, -INFINITY, INFINITY); break;
        case 22: SR(param_set_theta_sub, &x, (&x)->THETA_SUB, 0, INFINITY); break;
        case 23: SR(param_set_x_dim, &x, (&x)->x_dim, 1, INFINITY); break;
        case 24: SR(param_set_y_dim, &x, (&x)->y_dim, 1, INFINITY); break;
        case 25: SR(param_set_n_actions, &x, (&x)->n_actions, 1, INFINITY); break;
        case 26: SR(param_set_explore, &x, (&x)->explore, -INFINITY, INFINITY); break;
        case 27: SR(ea_param_set_select_size, &x, x.ea->select_size, 0, 1); break;
        case 28: SR(ea_param_set_theta, &x, x.ea->theta, 0, INFINITY); break;
        case 29: SR(ea_param_set_p_crossover, &x, x.ea->p_crossover, 0, 1); break;
        case 30: SR(ea_param_set_lambda, &x, x.ea->lambda, 2, INFINITY); break;
        case 31: SR(ea_param_set_err_reduc, &x, x.ea->err_reduc, 0, 1); break;
        case 32: SR(ea_param_set_fit_reduc, &x, x.ea->fit_reduc, 0, 1); break;
        case 33: SR(ea_param_set_subsumption, &x, x.ea->subsumption, -INFINITY, INFINITY); break;
        case 34: SR(ea_param_set_pred_reset, &x, x.ea->pred_reset, -INFINITY, INFINITY); break;
        case 35: SC(cond_param_set_eta, &x, x.cond->eta, 0, 1); break;
        case 36: SC(cond_param_set_min, &x, x.cond->min, -INFINITY, INFINITY); break;
        case 37: SC(cond_param_set_max, &x, x.cond->max, -INFINITY, INFINITY); break;
        case 38: SC(cond_param_set_p_dontcare, &x, x.cond->p_dontcare, 0, 1); break;
        case 39: SC(cond_param_set_spread_min, &x, x.cond->spread_min, 0, INFINITY); break;
        case 40: SC(cond_param_set_bits, &x, x.cond->bits, 1, INFINITY); break;
        case 41: SC(cond_param_set_type, &x, x.cond->type, 0, INFINITY); break;
        case 42: SC(pred_param_set_eta, &x, x.pred->eta, 0, 1); break;
        case 43: SC(pred_param_set_eta_min, &x, x.pred->eta_min, 0, 1); break;
        case 44: SC(pred_param_set_lambda, &x, x.pred->lambda, -INFINITY, INFINITY); break;
        case 45: SC(pred_param_set_scale_factor, &x, x.pred->scale_factor, -INFINITY, INFINITY); break;
        case 46: SC(pred_param_set_x0, &x, x.pred->x0, -INFINITY, INFINITY); break;
        case 47: SC(pred_param_set_evolve_eta, &x, x.pred->evolve_eta, -INFINITY, INFINITY); break;
        case 48: SC(pred_param_set_type, &x, x.pred->type, 0, INFINITY); break;
        case 49: SC(action_param_set_type, &x, x.act->type, 0, INFINITY); break;
        case 50: SC(tree_param_set_max, x.cond->targs, x.cond->targs->max, -INFINITY, INFINITY); break;
        case 51: SC(tree_param_set_min, x.cond->targs, x.cond->targs->min, -INFINITY, INFINITY); break;
        case 52: SC(tree_param_set_n_inputs, x.cond->targs, x.cond->targs->n_inputs, 1, INFINITY); break;
        case 53: SC(tree_param_set_n_constants, x.cond->targs, x.cond->targs->n_constants, 1, INFINITY); break;
        case 54: SC(tree_param_set_init_depth, x.cond->targs, x.cond->targs->init_depth, 1, INFINITY); break;
        case 55: SC(tree_param_set_max_len, x.cond->targs, x.cond->targs->max_len, 1, INFINITY); break;
        case 56: SC(graph_param_set_max_k, x.cond->dargs, x.cond->dargs->max_k, 1, INFINITY); break;
        case 57: SC(graph_param_set_max_t, x.cond->dargs, x.cond->dargs->max_t, 1, INFINITY); break;
        case 58: SC(graph_param_set_n, x.cond->dargs, x.cond->dargs->n, 1, INFINITY); break;
        case 59: SC(graph_param_set_n_inputs, x.cond->dargs, x.cond->dargs->n_inputs, 1, INFINITY); break;
        case 60: SC(graph_param_set_evolve_cycles, x.cond->dargs, x.cond->dargs->evolve_cycles, -INFINITY, INFINITY); break;
        default: names(&x); break;
            }
        }
        static char nm[2000];
        const int n = coin() ? ri(0, 40) : ri(500, 530);
        for (int i = 0; i < n; ++i) { nm[i] = 'a' + ri(0, 25); }
        nm[n] = 0;
        param_set_population_file(&x, nm);
        const int k = n < 512 ? n : 512;
        CHK((int) strlen(x.population_file) == k && !strncmp(x.population_file, nm, k), "population file name of %d characters", n);
        param_free(&x);
    }
    return finish();
}
