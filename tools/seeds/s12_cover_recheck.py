property = 'C12'
needs = 'covering fills the population so that a rule of the match set is deleted again'
breaks = 'an action that lost its only rule to deletion during covering is not covered again'
edits = [('xcsf/clset.c', '            if (prev_msize > xcsf->mset.size) {', '            if (prev_msize > xcsf->mset.size && xcsf->mset.size < xcsf->n_actions) {')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 4);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_CSR);
    param_set_pop_size(&x, 8);
    for (int r = 0; r < 4000; ++r) {
        clset_init(&x.pset);
        for (int i = 0; i < 7; ++i) {
            struct Cl *c = nc(&x);
            struct CondRectangle *p = c->cond;
            p->b1[0] = 0.5;
            p->b2[0] = 0.4;
            ((struct ActInteger *) c->act)->action = c->action = 1;
            clset_add(&x.pset, c);
        }
        const double in[1] = { 0.5 };
        clset_init(&x.mset);
        clset_init(&x.kset);
        clset_match(&x, in, true);
        int cov[4] = { 0 };
        for (struct Clist *l = x.mset.list; l; l = l->next) { ++cov[l->cl->action]; }
        for (int a = 0; a < 4; ++a) { if (!cov[a]) { return 1; } }
        clset_free(&x.mset);
        clset_kill(&x, &x.kset);
        clset_kill(&x, &x.pset);
    }
    return 0;
}
'''
