property = 'C22'
needs = 'a rule that has matched some but not all of the inputs it has seen when the population is stored'
breaks = 'a stored rule forgets how many inputs it has matched'
edits = [('xcsf/cl.c', '    dest->age = src->age;\n    dest->mtotal = src->mtotal;', '    dest->age = src->age;\n    dest->mtotal = src->m ? src->mtotal : 0;')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    struct Cl *c = nc(&x);
    c->age = 9;
    c->mtotal = 4;
    c->m = false;
    clset_add(&x.pset, c);
    xcsf_store_pset(&x);
    return !(x.prev_pset.list->cl->mtotal == 4 && x.prev_pset.list->cl->age == 9);
}
'''
