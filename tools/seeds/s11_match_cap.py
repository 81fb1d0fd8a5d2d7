property = 'C11'
needs = 'the population holds more copies than its limit while an input is matched'
breaks = 'matching rules beyond the population limit are left out of the match set'
edits = [('xcsf/clset.c', '        if (cl_m(xcsf, blist[i]->cl)) {', '        if (cl_m(xcsf, blist[i]->cl) &&\n            xcsf->mset.num + blist[i]->cl->num <= xcsf->POP_SIZE) {')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
    param_set_pop_size(&x, 5);
    for (int i = 0; i < 4; ++i) {
        struct Cl *c = nc(&x);
        struct CondRectangle *p = c->cond;
        p->b1[0] = 0.5;
        p->b2[0] = 0.4;
        c->num = 2;
        clset_add(&x.pset, c);
    }
    const double in[1] = { 0.5 };
    clset_init(&x.mset);
    clset_match(&x, in, false);
    return !(x.mset.size == 4 && x.mset.num == 8);
}
'''
