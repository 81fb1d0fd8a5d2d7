property = 'C23'
needs = 'a system that is released while a population is stored'
breaks = 'the rules of the stored population are never released'
edits = [('xcsf/xcsf.c', '    clset_kill(xcsf, &xcsf->pset);\n    clset_kill(xcsf, &xcsf->prev_pset);\n    pa_free(xcsf);', '    clset_kill(xcsf, &xcsf->pset);\n    clset_free(&xcsf->prev_pset);\n    pa_free(xcsf);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include <malloc.h>
static void once(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    for (int i = 0; i < 50; ++i) { clset_add(&x.pset, nc(&x)); }
    xcsf_store_pset(&x);
    xcsf_free(&x);
    param_free(&x);
}
int main(void)
{
    once();
    once();
    const size_t a = mallinfo2().uordblks;
    once();
    once();
    return mallinfo2().uordblks > a + 2000;
}
'''
