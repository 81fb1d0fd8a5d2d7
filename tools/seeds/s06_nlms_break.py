property = 'C06'
needs = 'several outputs, the first of which is already predicted exactly'
breaks = 'the remaining outputs do not learn'
edits = [('xcsf/pred_nlms.c', '        const double error = y[i] - c->prediction[i];\n', '        const double error = y[i] - c->prediction[i];\n        if (error == 0) { // nothing to correct\n            break;\n        }\n')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 2, 1);
    pred_param_set_type(&x, PRED_TYPE_NLMS_LINEAR);
    struct Cl *c = nc(&x);
    struct PredNLMS *p = c->pred;
    for (int i = 0; i < p->n_weights; ++i) { p->weights[i] = 0; }
    const double in[1] = { 1 }, y[2] = { 0, 5 };
    pred_compute(&x, c, in);
    pred_update(&x, c, in, y);
    pred_compute(&x, c, in);
    return !(c->prediction[1] > 0);
}
'''
