property = 'C18'
needs = 'an exploitation step that ends a multi-step problem, after set subsumption in the previous action set deleted a rule that is also in the current one'
breaks = 'a deleted rule takes part in the final update of the trial'
edits = [('xcsf/xcs_rl.c', '        clset_validate(&xcsf->aset);', '        if (xcsf->explore) {\n            clset_validate(&xcsf->aset);\n        }')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include "xcs_rl.h"
int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    param_set_set_subsumption(&x, true);
    param_set_theta_sub(&x, 5);
    param_set_e0(&x, 0.5);
    param_set_gamma(&x, 0.5);
    param_set_explore(&x, false);
    clset_init(&x.pset);
    struct Cl *g = nc(&x), *s = nc(&x);
    struct CondRectangle *a = g->cond, *b = s->cond;
    a->b1[0] = 0.5; a->b2[0] = 0.5; b->b1[0] = 0.5; b->b2[0] = 0.1;
    g->exp = 4; g->err = 0; s->exp = 2; s->err = 0;
    clset_add(&x.pset, s);
    clset_add(&x.pset, g);
    const double st[1] = { 0.5 };
    xcs_rl_init_trial(&x);
    for (int k = 0; k < 2; ++k) {
        xcs_rl_init_step(&x);
        clset_match(&x, st, true);
        pa_build(&x, st);
        if (k == 1) { g->exp = 50; }
        xcs_rl_update(&x, st, 0, 0, k == 1);
        if (k == 1) { return s->num == 0 && s->exp != 3; }
        xcs_rl_end_step(&x, st, 0, 0);
    }
    return 0;
}
'''
