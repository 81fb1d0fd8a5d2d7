property = 'C16'
needs = 'a linear or quadratic gradient-descent predictor with more than one output is copied'
breaks = 'only the weights of the first output are copied, the others restart from their initial values'
edits = [('xcsf/pred_nlms.c', '    memcpy(dest_pred->weights, src_pred->weights,\n           sizeof(double) * src_pred->n_weights);\n    memcpy(dest_pred->mu', '    memcpy(dest_pred->weights, src_pred->weights,\n           sizeof(double) * src_pred->n);\n    memcpy(dest_pred->mu')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include <string.h>
int main(void)
{
    struct XCSF x;
    mk(&x, 2, 3, 1);
    pred_param_set_type(&x, PRED_TYPE_NLMS_LINEAR);
    struct Cl *c = nc(&x);
    const double in[2] = { 0.3, 0.7 }, y[3] = { 1, 2, 3 };
    for (int i = 0; i < 5; ++i) { cl_predict(&x, c, in); cl_update(&x, c, in, y, 1, false); }
    struct Cl d;
    cl_init_copy(&x, &d, c);
    cl_predict(&x, c, in);
    cl_predict(&x, &d, in);
    return memcmp(c->prediction, d.prediction, sizeof(double) * 3) != 0;
}
'''
