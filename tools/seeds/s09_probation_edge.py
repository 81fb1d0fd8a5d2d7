property = 'C09'
needs = 'a rule that has never matched and whose age equals the probation exactly'
breaks = 'a rule still within its probation is deleted ahead of the roulette'
edits = [('xcsf/clset.c', 'iter->cl->age > xcsf->M_PROBATION', 'iter->cl->age >= xcsf->M_PROBATION')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    param_set_m_probation(&x, 10);
    struct Cl *a = nc(&x), *b = nc(&x);
    a->size = 0;          /* no vote at all */
    a->mtotal = 0;
    a->age = 10;
    b->size = 5;
    b->num = 3;
    b->mtotal = 3;
    b->age = 20;
    clset_add(&x.pset, a);
    clset_add(&x.pset, b);
    x.POP_SIZE = 3;
    clset_init(&x.kset);
    clset_pset_enforce_limit(&x);
    return !(b->num == 2 && a->num == 1);
}
'''
