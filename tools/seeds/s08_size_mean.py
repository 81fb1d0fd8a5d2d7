property = 'C08'
needs = 'a rule whose experience is still in the running-mean phase'
breaks = 'the set-size estimate of young rules weighs the old estimate by the new experience count'
edits = [('xcsf/cl.c', '        c->size = (c->size * (c->exp - 1) + set_num) / c->exp;', '        c->size = (c->size * c->exp + set_num) / (c->exp + 1);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    struct Cl *c = nc(&x);
    c->size = 10;
    c->exp = 0;
    const double in[1] = { 0 }, y[1] = { 1 };
    cl_update(&x, c, in, y, 4, true);
    return fabs(c->size - 4) > 1e-9;
}
'''
