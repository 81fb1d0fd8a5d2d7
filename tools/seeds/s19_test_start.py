property = 'C19'
needs = 'training continued from a position other than the first sample, with test data, without shuffling'
breaks = 'the test sample of each trial is not the one at the continued position'
edits = [('xcsf/xcs_supervised.c', 'row = xcs_supervised_sample(test_data, cnt + start, shuffle);', 'row = xcs_supervised_sample(test_data, cnt, shuffle);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include "xcs_supervised.h"
#include <string.h>
static const double *seen[8];
static int n;
static struct XCSF *X;
static double rec(const struct XCSF *x, const double *p, const double *y)
{
    if (p == x->pa && !x->explore && n < 8) { seen[n++] = y; }
    return fabs(p[0] - y[0]);
}
int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    x.loss_ptr = rec;
    double tx[3] = { 0.1, 0.5, 0.9 }, ty[3] = { 0, 1, 2 }, ex[3] = { 0.2, 0.4, 0.6 }, ey[3] = { 0, 1, 2 };
    const struct Input tr = { tx, ty, 1, 1, 3 }, te = { ex, ey, 1, 1, 3 };
    xcs_supervised_fit(&x, &tr, &te, false, 2, 2);
    return !(n == 2 && seen[0] == &ey[2] && seen[1] == &ey[0]);
}
'''
