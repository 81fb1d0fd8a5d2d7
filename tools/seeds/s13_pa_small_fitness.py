property = 'C13'
needs = 'the rules advocating an action together have a very small fitness'
breaks = 'the system prediction of an action whose rules have low fitness is reported as zero'
edits = [('xcsf/pa.c', '            if (nr[k] != 0) {', '            if (nr[k] > 0.0001) {')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 2);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    clset_init(&x.mset);
    struct Cl *c = nc(&x);
    c->action = 1;
    c->fit = 0.00001;
    c->prediction[0] = 3;
    clset_add(&x.mset, c);
    const double in[1] = { 0.5 };
    pa_build(&x, in);
    return fabs(x.pa[1] - 3) > 1e-9;
}
'''
