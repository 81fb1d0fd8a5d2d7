property = 'C14'
needs = 'the set holds an able subsumer and, later in the list, a more general rule that is not accurate'
breaks = 'an inaccurate or inexperienced rule takes over the copies of others'
edits = [('xcsf/clset.c', '        if (cl_subsumer(xcsf, c) && (s == NULL || cl_general(xcsf, c, s))) {', '        if (s == NULL ? cl_subsumer(xcsf, c) : cl_general(xcsf, c, s)) {')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    param_set_theta_sub(&x, 10);
    param_set_e0(&x, 0.1);
    param_set_set_subsumption(&x, true);
    struct Cl *big = nc(&x), *able = nc(&x);
    struct CondRectangle *p = big->cond, *q = able->cond;
    p->b1[0] = q->b1[0] = 0.5;
    p->b2[0] = 0.4;
    q->b2[0] = 0.1;
    big->exp = 1;      /* not experienced */
    able->exp = 100;
    big->err = 5;
    able->err = 0;
    clset_add(&x.pset, big);
    clset_add(&x.pset, able);
    clset_init(&x.aset);
    clset_init(&x.kset);
    clset_add(&x.aset, big);
    clset_add(&x.aset, able);
    const double in[1] = { 0.5 }, y[1] = { 0 };
    clset_update(&x, &x.aset, in, y, true);
    return !(big->num == 1 && able->num == 1 && x.pset.size == 2);
}
'''
