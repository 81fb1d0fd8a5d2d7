property = 'C24'
needs = 'no rule below the target error and several experienced rules with different errors'
breaks = 'the fraction reported is that of the last experienced rule, not of the one of least error'
edits = [('xcsf/clset.c', '                mfrac = cl_mfrac(xcsf, iter->cl);\n                error = e;\n', '                mfrac = cl_mfrac(xcsf, iter->cl);\n                error = fmax(e, error);\n')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    x.E0 = 0.01;
    for (int i = 0; i < 3; ++i) {
        struct Cl *c = nc(&x);
        c->exp = 1000;
        c->age = 10;
        c->mtotal = 2 + i;
        c->err = 0.5 - 0.1 * i;
        clset_add(&x.pset, c);
    }
    return fabs(clset_mfrac(&x) - 0.4) > 1e-9;
}
'''
