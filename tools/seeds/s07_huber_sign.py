property = 'C07'
needs = 'a large negative residual (prediction above target by more than the threshold)'
breaks = 'the Huber loss of overestimates beyond the threshold is wrong (can be negative)'
edits = [('xcsf/loss.c', '            error += 0.5 * delta * delta + delta * (fabs(a) - delta);', '            error += 0.5 * delta * delta + delta * (a - delta);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    param_set_huber_delta(&x, 1);
    const double p[1] = { 5 }, y[1] = { 0 };
    return fabs(loss_huber(&x, p, y) - 4.5) > 1e-9;
}
'''
