property = 'C05'
needs = 'a recursive least squares rule with more than one output'
breaks = 'each output after the first is computed from the wrong row of weights'
edits = [('xcsf/pred_rls.c', '            blas_dot(n, &pred->weights[i * n], 1, pred->tmp_input, 1);', '            blas_dot(n, &pred->weights[i * (n - i)], 1, pred->tmp_input, 1);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 2, 2, 1);
    pred_param_set_type(&x, PRED_TYPE_RLS_LINEAR);
    struct Cl *c = nc(&x);
    struct PredRLS *p = c->pred;
    for (int i = 0; i < p->n_weights; ++i) { p->weights[i] = i + 1; }
    const double in[2] = { 2, 3 };
    const double *o = cl_predict(&x, c, in);
    const double e0 = x.pred->x0 * 1 + 2 * 2 + 3 * 3, e1 = x.pred->x0 * 4 + 2 * 5 + 3 * 6;
    return fabs(o[0] - e0) > 1e-9 || fabs(o[1] - e1) > 1e-9;
}
'''
