#include "h.h"
/* creation, copying, independence and release of rules */
static const int PT[] = { PRED_TYPE_CONSTANT, PRED_TYPE_NLMS_LINEAR, PRED_TYPE_NLMS_QUADRATIC, PRED_TYPE_RLS_LINEAR, PRED_TYPE_RLS_QUADRATIC };
static double buf[2][4096];
static int dump(const struct XCSF *x, const struct Cl *c, double *o, int rates)
{
    int n = 0;
    const int t = x->cond->type;
    o[n++] = ((struct ActInteger *) c->act)->action;
    o[n++] = ((struct ActInteger *) c->act)->mu[0];
    if (t == COND_TYPE_TERNARY) {
        struct CondTernary *p = c->cond;
        o[n++] = p->length; o[n++] = p->mu[0];
        for (int i = 0; i < p->length; ++i) { o[n++] = p->string[i]; }
    } else if (t == COND_TYPE_HYPERELLIPSOID) {
        struct CondEllipsoid *p = c->cond;
        o[n++] = p->mu[0];
        for (int i = 0; i < x->x_dim; ++i) { o[n++] = p->center[i]; o[n++] = p->spread[i]; }
    } else if (t != COND_TYPE_DUMMY) {
        struct CondRectangle *p = c->cond;
        o[n++] = p->mu[0];
        for (int i = 0; i < x->x_dim; ++i) { o[n++] = p->b1[i]; o[n++] = p->b2[i]; }
    }
    const int pt = x->pred->type;
    if (pt == PRED_TYPE_NLMS_LINEAR || pt == PRED_TYPE_NLMS_QUADRATIC) {
        struct PredNLMS *p = c->pred;
        o[n++] = p->n; o[n++] = p->n_weights; o[n++] = p->eta; o[n++] = p->mu[0];
        for (int i = 0; i < p->n_weights; ++i) { o[n++] = p->weights[i]; }
    } else if (pt == PRED_TYPE_RLS_LINEAR || pt == PRED_TYPE_RLS_QUADRATIC) {
        struct PredRLS *p = c->pred;
        o[n++] = p->n; o[n++] = p->n_weights;
        for (int i = 0; i < p->n_weights; ++i) { o[n++] = p->weights[i]; }
        if (rates) { for (int i = 0; i < p->n * p->n; ++i) { o[n++] = p->matrix[i]; } }
    }
    return n;
}
int main(int argc, char **argv)
{
    start(argc, argv, "C16");
    while (more()) {
        struct XCSF x;
        setup(&x, ri(1, 4), ri(1, 3), ri(1, 4));
        condcfg(&x);
        if (ri(0, 9) == 0) { cond_param_set_type(&x, COND_TYPE_DUMMY); }
        pred_param_set_type(&x, PT[ri(0, 4)]);
        pred_param_set_x0(&x, rd(0.5, 2));
        pred_param_set_eta(&x, rd(0.2, 1));
        pred_param_set_eta_min(&x, 0.05);
        pred_param_set_evolve_eta(&x, coin());
        pred_param_set_scale_factor(&x, rd(10, 1000));
        ea_param_set_pred_reset(&x, ri(0, 3) == 0);
        struct Cl *c = newcl(&x);
        const double lo = x.cond->min, hi = x.cond->max, sl = fmin(x.cond->spread_min, hi - lo), sh = fmax(x.cond->spread_min, hi - lo);
        const int t = x.cond->type;
        CHK(((struct ActInteger *) c->act)->action >= 0 && ((struct ActInteger *) c->act)->action < x.n_actions, "a new rule has action %d", ((struct ActInteger *) c->act)->action);
        if (t == COND_TYPE_TERNARY) {
            struct CondTernary *p = c->cond;
            CHK(p->length == x.x_dim * x.cond->bits, "length");
            for (int i = 0; i < p->length; ++i) {
                CHK(p->string[i] == '0' || p->string[i] == '1' || p->string[i] == '#', "symbol %d", p->string[i]);
                if (x.cond->p_dontcare == 1) { CHK(p->string[i] == '#', "a symbol other than # although its probability is one"); }
                if (x.cond->p_dontcare == 0) { CHK(p->string[i] != '#', "a # although its probability is zero"); }
            }
        } else if (t == COND_TYPE_HYPERELLIPSOID) {
            struct CondEllipsoid *p = c->cond;
            for (int i = 0; i < x.x_dim; ++i) { CHK(p->center[i] >= lo && p->center[i] <= hi && p->spread[i] >= sl && p->spread[i] <= sh, "initial ellipsoid outside the range"); }
        } else if (t != COND_TYPE_DUMMY) {
            struct CondRectangle *p = c->cond;
            for (int i = 0; i < x.x_dim; ++i) {
                CHK(p->b1[i] >= lo && p->b1[i] <= hi, "initial bound outside the range");
                if (t == COND_TYPE_HYPERRECTANGLE_CSR) { CHK(p->b2[i] >= sl && p->b2[i] <= sh, "initial spread outside the range"); }
                else { CHK(p->b2[i] >= lo && p->b2[i] <= hi, "initial bound outside the range"); }
            }
        }
        const int pt = x.pred->type;
        const int lin = pt == PRED_TYPE_NLMS_LINEAR || pt == PRED_TYPE_RLS_LINEAR;
        const int nn = lin ? x.x_dim + 1 : 1 + 2 * x.x_dim + x.x_dim * (x.x_dim - 1) / 2;
        if (pt == PRED_TYPE_NLMS_LINEAR || pt == PRED_TYPE_NLMS_QUADRATIC) {
            struct PredNLMS *p = c->pred;
            CHK(p->n == nn && p->n_weights == nn * x.y_dim, "number of weights");
            for (int i = 0; i < p->n_weights; ++i) { CHK(p->weights[i] == (i % nn ? 0 : x.pred->x0), "initial weight %d", i); }
            CHK(p->eta >= fmin(x.pred->eta, x.pred->eta_min) && p->eta <= x.pred->eta && (x.pred->evolve_eta || p->eta == x.pred->eta), "initial learning rate %g", p->eta);
        } else if (pt == PRED_TYPE_RLS_LINEAR || pt == PRED_TYPE_RLS_QUADRATIC) {
            struct PredRLS *p = c->pred;
            CHK(p->n == nn && p->n_weights == nn * x.y_dim, "number of weights");
            for (int i = 0; i < p->n_weights; ++i) { CHK(p->weights[i] == (i % nn ? 0 : x.pred->x0), "initial weight %d", i); }
            for (int i = 0; i < nn * nn; ++i) { CHK(p->matrix[i] == (i / nn == i % nn ? x.pred->scale_factor : 0), "initial gain matrix element %d", i); }
        }
        /* give the rule a history, then copy it */
        c->num = ri(1, 5); c->exp = ri(0, 9); c->err = rd(0, 1); c->fit = rd(0, 1); c->age = ri(1, 9); c->mtotal = ri(0, 9); c->m = coin();
        c->action = ((struct ActInteger *) c->act)->action;
        double in[4], y[3];
        for (int i = 0; i < 4; ++i) { in[i] = rd(lo, hi); }
        for (int i = 0; i < 3; ++i) { y[i] = rv(); }
        for (int i = 0; i < 3; ++i) { cl_predict(&x, c, in); cl_update(&x, c, in, y, 3, false); }
        struct Cl *d = malloc(sizeof(struct Cl));
        memset(d, 0x5a, sizeof(*d));
        const int full = coin();
        if (full) { cl_init_copy(&x, d, c); }
        else { cl_init(&x, d, 1, 1); cl_copy(&x, d, c); }
        const int reset = !full && x.ea->pred_reset;
        if (full) {
            CHK(d->num == c->num && d->exp == c->exp && d->err == c->err && d->fit == c->fit && d->size == c->size && d->time == c->time &&
                d->action == c->action && d->m == c->m && d->age == c->age && d->mtotal == c->mtotal, "a full copy differs from the original");
        }
        CHK(d->cond_vptr == c->cond_vptr && d->pred_vptr == c->pred_vptr && d->act_vptr == c->act_vptr, "a copy has another kind");
        if (!reset) {
            const int a = dump(&x, c, buf[0], 0), b = dump(&x, d, buf[1], 0);
            CHK(a == b && !memcmp(buf[0], buf[1], sizeof(double) * a), "the parts of a copy differ from the original");
        }
        /* change the copy; the original must not follow */
        const int a = dump(&x, c, buf[0], 1);
        scramble(&x, d);
        for (int i = 0; i < 3; ++i) { cl_mutate(&x, d); cl_predict(&x, d, in); cl_update(&x, d, in, y, 3, true); }
        CHK(a == dump(&x, c, buf[1], 1) && !memcmp(buf[0], buf[1], sizeof(double) * a), "changing a copy changed the original");
        const int first = coin();
        cl_free(&x, first ? c : d);
        struct Cl *s = first ? d : c;
        cl_predict(&x, s, in); cl_update(&x, s, in, y, 3, false); cl_match(&x, s, in); cl_mutate(&x, s);
        cl_free(&x, s);
        teardown(&x);
    }
    return finish();
}
