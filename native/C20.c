#include "h.h"
#include "cond_dgp.h"
#include "cond_gp.h"
#include "neural_layer_args.h"
#include "rule_dgp.h"
#include <sys/stat.h>
/* save a system to a file, load it into a differently configured one, compare */
static const int CT[] = { COND_TYPE_DUMMY, COND_TYPE_HYPERRECTANGLE_CSR, COND_TYPE_HYPERRECTANGLE_UBR, COND_TYPE_HYPERELLIPSOID,
                          COND_TYPE_TERNARY, COND_TYPE_GP, COND_TYPE_DGP, RULE_TYPE_DGP, COND_TYPE_NEURAL };
static const int PT[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC, PRED_TYPE_NEURAL };
#define D(f) EQX(a->f, b->f, #f)
#define EQX(p, q, w) do { if ((p) != (q)) { fail("%s differs after loading: %.17g, saved %.17g", w, (double) (q), (double) (p)); } } while (0)
static void arr(const double *p, const double *q, int n, const char *w) { for (int i = 0; i < n; ++i) { if (p[i] != q[i]) { fail("%s element %d differs after loading", w, i); } } }
static void iarr(const int *p, const int *q, int n, const char *w) { for (int i = 0; i < n; ++i) { if (p[i] != q[i]) { fail("%s element %d differs after loading", w, i); } } }
static void layers(const struct ArgsLayer *a, const struct ArgsLayer *b)
{
    while (a && b) {
        D(type); D(n_inputs); D(n_init); D(n_max); D(max_neuron_grow); D(function); D(recurrent_function); D(height); D(width); D(channels);
        D(size); D(stride); D(pad); D(eta); D(eta_min); D(momentum); D(decay); D(probability); D(scale); D(evolve_weights); D(evolve_neurons);
        D(evolve_functions); D(evolve_eta); D(evolve_connect); D(sgd_weights);
        a = a->next; b = b->next;
    }
    CHK(!a && !b, "another number of layers after loading");
}
static void params(const struct XCSF *a, const struct XCSF *b)
{
    D(time); D(error); D(mset_size); D(aset_size); D(mfrac); D(explore); D(x_dim); D(y_dim); D(n_actions); D(OMP_NUM_THREADS); D(RANDOM_STATE);
    D(POP_INIT); D(MAX_TRIALS); D(PERF_TRIALS); D(POP_SIZE); D(LOSS_FUNC); D(HUBER_DELTA); D(GAMMA); D(TELETRANSPORTATION); D(P_EXPLORE);
    D(SET_SUBSUMPTION); D(THETA_SUB); D(E0); D(ALPHA); D(NU); D(BETA); D(DELTA); D(THETA_DEL); D(INIT_FITNESS); D(INIT_ERROR); D(M_PROBATION);
    D(STATEFUL); D(COMPACTION);
    CHK(a->loss_ptr == b->loss_ptr, "loss function differs after loading");
    CHK(!strcmp(a->population_file, b->population_file), "population file differs after loading");
    D(ea->select_type); D(ea->select_size); D(ea->theta); D(ea->lambda); D(ea->p_crossover); D(ea->err_reduc); D(ea->fit_reduc); D(ea->subsumption); D(ea->pred_reset);
    D(cond->type); D(cond->eta); D(cond->min); D(cond->max); D(cond->spread_min); D(cond->p_dontcare); D(cond->bits);
    D(pred->type); D(pred->eta); D(pred->eta_min); D(pred->lambda); D(pred->scale_factor); D(pred->x0); D(pred->evolve_eta); D(act->type);
    D(cond->dargs->evolve_cycles); D(cond->dargs->max_k); D(cond->dargs->max_t); D(cond->dargs->n); D(cond->dargs->n_inputs);
    D(cond->targs->max); D(cond->targs->min); D(cond->targs->n_inputs); D(cond->targs->n_constants); D(cond->targs->init_depth); D(cond->targs->max_len);
    arr(a->cond->targs->constants, b->cond->targs->constants, a->cond->targs->n_constants, "tree constants");
    layers(a->cond->largs, b->cond->largs); layers(a->pred->largs, b->pred->largs); layers(a->act->largs, b->act->largs);
    CHK(b->pa_size == b->n_actions * b->y_dim, "prediction array of size %d for %d actions and %d outputs", b->pa_size, b->n_actions, b->y_dim);
}
static void graphs(const struct Graph *a, const struct Graph *b)
{
    D(evolve_cycles); D(n_inputs); D(n); D(t); D(klen); D(max_t); D(max_k);
    arr(a->state, b->state, a->n, "graph state"); arr(a->initial_state, b->initial_state, a->n, "graph initial state");
    iarr(a->function, b->function, a->n, "graph function"); iarr(a->connectivity, b->connectivity, a->klen, "graph connectivity"); arr(a->mu, b->mu, 3, "graph rates");
}
static void rules(const struct XCSF *x, const struct Cl *a, const struct Cl *b)
{
    D(err); D(fit); D(num); D(exp); D(size); D(time); D(m); D(age); D(mtotal); D(action);
    arr(a->prediction, b->prediction, x->y_dim, "prediction");
    CHK(a->cond_vptr == b->cond_vptr && a->pred_vptr == b->pred_vptr && a->act_vptr == b->act_vptr, "another kind of rule after loading");
    const int t = x->cond->type, n = x->x_dim;
    if (t == COND_TYPE_TERNARY) {
        const struct CondTernary *p = a->cond, *q = b->cond;
        EQX(p->length, q->length, "length"); EQX(p->mu[0], q->mu[0], "rate");
        CHK(!memcmp(p->string, q->string, p->length), "symbols differ after loading");
        memset(q->tmp_input, 0, x->cond->bits);
    } else if (t == COND_TYPE_HYPERELLIPSOID) {
        const struct CondEllipsoid *p = a->cond, *q = b->cond;
        EQX(p->mu[0], q->mu[0], "rate"); arr(p->center, q->center, n, "center"); arr(p->spread, q->spread, n, "spread");
    } else if (t == COND_TYPE_HYPERRECTANGLE_CSR || t == COND_TYPE_HYPERRECTANGLE_UBR) {
        const struct CondRectangle *p = a->cond, *q = b->cond;
        EQX(p->mu[0], q->mu[0], "rate"); arr(p->b1, q->b1, n, "b1"); arr(p->b2, q->b2, n, "b2");
    } else if (t == COND_TYPE_GP) {
        const struct CondGP *p = a->cond, *q = b->cond;
        EQX(p->gp.len, q->gp.len, "tree length"); EQX(p->gp.pos, q->gp.pos, "tree position"); EQX(p->gp.mu[0], q->gp.mu[0], "rate"); iarr(p->gp.tree, q->gp.tree, p->gp.len, "tree");
    } else if (t == COND_TYPE_DGP) {
        graphs(&((struct CondDGP *) a->cond)->dgp, &((struct CondDGP *) b->cond)->dgp);
    } else if (t == RULE_TYPE_DGP) {
        graphs(&((struct RuleDGP *) a->cond)->dgp, &((struct RuleDGP *) b->cond)->dgp);
        EQX(((struct RuleDGP *) a->cond)->n_outputs, ((struct RuleDGP *) b->cond)->n_outputs, "number of action nodes");
    }
    const int pt = x->pred->type;
    if (pt == PRED_TYPE_NLMS_LINEAR || pt == PRED_TYPE_NLMS_QUADRATIC) {
        const struct PredNLMS *p = a->pred, *q = b->pred;
        EQX(p->n, q->n, "terms"); EQX(p->n_weights, q->n_weights, "weights"); EQX(p->eta, q->eta, "learning rate"); EQX(p->mu[0], q->mu[0], "rate"); arr(p->weights, q->weights, p->n_weights, "weights");
    } else if (pt == PRED_TYPE_RLS_LINEAR || pt == PRED_TYPE_RLS_QUADRATIC) {
        const struct PredRLS *p = a->pred, *q = b->pred;
        EQX(p->n, q->n, "terms"); EQX(p->n_weights, q->n_weights, "weights"); arr(p->weights, q->weights, p->n_weights, "weights"); arr(p->matrix, q->matrix, p->n * p->n, "gain matrix");
    }
    if (t < 10 && x->act->type == ACT_TYPE_INTEGER) {
        const struct ActInteger *p = a->act, *q = b->act;
        EQX(p->action, q->action, "action"); EQX(p->mu[0], q->mu[0], "rate");
    }
}
static void config(struct XCSF *x)
{
    setup(x, ri(1, 4), ri(1, 3), ri(1, 5));
    condcfg(x);
    cond_param_set_type(x, CT[ri(0, 8)]);
    pred_param_set_type(x, PT[ri(0, 5)]);
    x->time = ri(0, 1000); x->error = rd(0, 1); x->mset_size = rd(0, 9); x->aset_size = rd(0, 9); x->mfrac = rd(0, 1); x->explore = coin();
    x->MAX_TRIALS = ri(1, 9999); x->PERF_TRIALS = ri(1, 999); x->POP_SIZE = ri(50, 999); x->HUBER_DELTA = rd(0, 1); x->GAMMA = rd(0, 1);
    x->TELETRANSPORTATION = ri(1, 99); x->P_EXPLORE = rd(0, 1); x->SET_SUBSUMPTION = coin(); x->THETA_SUB = ri(1, 99); x->E0 = rd(0, 1);
    x->ALPHA = rd(0, 1); x->NU = rd(1, 9); x->BETA = rd(0, 1); x->DELTA = rd(0, 1); x->THETA_DEL = ri(1, 99); x->INIT_FITNESS = rd(0, 1); x->INIT_ERROR = rd(0, 1);
    x->M_PROBATION = ri(1, 999); x->STATEFUL = coin(); x->COMPACTION = coin(); x->POP_INIT = coin(); x->RANDOM_STATE = ri(0, 99);
    x->LOSS_FUNC = ri(0, 6); loss_set_func(x);
    static const char *nm[] = { "", "a", "population.json", "some/longer/name/of/a/population/file.json" };
    param_set_population_file(x, nm[ri(0, 3)]);
    x->ea->select_type = ri(0, 1); x->ea->select_size = rd(0, 1); x->ea->theta = rd(0, 99); x->ea->lambda = 2 * ri(1, 3); x->ea->p_crossover = rd(0, 1);
    x->ea->err_reduc = rd(0, 1); x->ea->fit_reduc = rd(0, 1); x->ea->subsumption = coin(); x->ea->pred_reset = coin();
    x->pred->eta = rd(0.1, 1); x->pred->eta_min = rd(0, 0.1); x->pred->lambda = rd(0.5, 1); x->pred->scale_factor = rd(1, 999); x->pred->x0 = rd(0, 2); x->pred->evolve_eta = coin();
    graph_param_set_n(x->cond->dargs, ri(5, 12)); graph_param_set_max_k(x->cond->dargs, ri(1, 3)); graph_param_set_max_t(x->cond->dargs, ri(1, 5)); graph_param_set_evolve_cycles(x->cond->dargs, coin());
    tree_param_set_min(x->cond->targs, rd(-2, 0)); tree_param_set_max(x->cond->targs, rd(0, 2)); tree_param_set_n_constants(x->cond->targs, ri(1, 300));
    tree_param_set_init_depth(x->cond->targs, ri(2, 4)); tree_param_set_max_len(x->cond->targs, ri(500, 900));
    tree_args_init_constants(x->cond->targs);
    for (struct ArgsLayer *l = x->pred->largs; l; l = l->next) { l->eta = rd(0, 1); l->momentum = rd(0, 1); l->decay = rd(0, 1); l->evolve_eta = coin(); l->eta_min = rd(0, 0.01); l->evolve_functions = coin(); }
    for (struct ArgsLayer *l = x->cond->largs; l; l = l->next) { l->max_neuron_grow = ri(1, 3); l->scale = rd(0, 1); l->probability = rd(0, 1); }
    const int n = ri(0, 6);
    double in[4], y[3];
    for (int k = 0; k < n; ++k) {
        struct Cl *c = newcl(x);
        c->num = ri(1, 5); c->exp = ri(0, 9); c->err = rd(0, 1); c->fit = rd(0, 1); c->age = ri(1, 9); c->mtotal = ri(0, 9); c->m = coin(); c->action = ri(0, x->n_actions - 1);
        for (int i = 0; i < 4; ++i) { in[i] = rd(-1, 1); }
        for (int i = 0; i < 3; ++i) { y[i] = rd(0, 1); }
        cl_match(x, c, in); cl_predict(x, c, in); cl_update(x, c, in, y, 3, true);
        clset_add(&x->pset, c);
    }
}
static int slurp(const char *f, char *buf, int cap) { FILE *p = fopen(f, "rb"); const int n = (int) fread(buf, 1, cap, p); fclose(p); return n; }
int main(int argc, char **argv)
{
    start(argc, argv, "C20");
    char d[] = "/tmp/dvserXXXXXX", f1[64], f2[64];
    static char b1[1 << 20], b2[1 << 20];
    if (!mkdtemp(d)) { return 0; }
    snprintf(f1, 64, "%s/1", d); snprintf(f2, 64, "%s/2", d);
    while (more()) {
        struct XCSF x, y;
        config(&x); config(&y);
        const size_t w = xcsf_save(&x, f1), r = xcsf_load(&y, f1);
        CHK(w == r, "%zu records written, %zu read", w, r);
        params(&x, &y);
        CHK(x.pset.size == y.pset.size && x.pset.num == y.pset.num, "population of %d rules loaded as %d", x.pset.size, y.pset.size);
        const struct Clist *p = x.pset.list, *q = y.pset.list;
        for (; p && q; p = p->next, q = q->next) { rules(&x, p->cl, q->cl); }
        CHK(!p && !q, "population list differs in length");
        xcsf_save(&y, f2);
        const int n1 = slurp(f1, b1, sizeof(b1)), n2 = slurp(f2, b2, sizeof(b2));
        CHK(n1 == n2 && !memcmp(b1, b2, n1), "saving what was loaded gives a different file");
        /* the loaded system works and answers alike */
        double in[4];
        for (int i = 0; i < 4; ++i) { in[i] = rd(-1, 1); }
        x.explore = y.explore = false;
        for (p = x.pset.list, q = y.pset.list; p; p = p->next, q = q->next) {
            const bool ma = cl_match(&x, p->cl, in), mb = cl_match(&y, q->cl, in);
            CHK(ma == mb, "a loaded rule matches differently");
            const double *pa = cl_predict(&x, p->cl, in), *pb = cl_predict(&y, q->cl, in);
            for (int i = 0; i < x.y_dim; ++i) { CHK(pa[i] == pb[i], "a loaded rule predicts differently"); }
            CHK(cl_action(&x, p->cl, in) == cl_action(&y, q->cl, in), "a loaded rule advocates another action");
        }
        clset_init(&y.mset);
        for (q = y.pset.list; q; q = q->next) { clset_add(&y.mset, q->cl); }
        pa_build(&y, in);
        clset_free(&y.mset);
        teardown(&x); teardown(&y);
    }
    unlink(f1); unlink(f2); rmdir(d);
    return finish();
}
