property = 'C21'
needs = 'setting the tournament fraction of the EA to exactly one'
breaks = 'a legal value is refused'
edits = [('xcsf/ea.c', '    if (a < 0 || a > 1) {\n        return "Invalid EA SELECT_SIZE', '    if (a < 0 || a >= 1) {\n        return "Invalid EA SELECT_SIZE')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    const char *r = ea_param_set_select_size(&x, 1);
    return !(r == NULL && x.ea->select_size == 1 && ea_param_set_select_size(&x, 1.5) != NULL && x.ea->select_size == 1);
}
'''
