import os
D='/verif/tools/seeds/'
INC='''#include "h.h"
'''
def seed(id, prop, needs, breaks, edits, demo):
    open(D+id+'.py','w').write('property = %r\nneeds = %r\nbreaks = %r\nedits = %r\ndemo = r\'\'\'%s\'\'\'\n'%(prop,needs,breaks,edits,demo))
H='''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
'''
