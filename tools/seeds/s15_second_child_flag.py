property = 'C15'
needs = 'offspring that were not crossed over, the first mutated and the second not'
breaks = 'the second offspring is inserted according to whether the first one was mutated, so an exact copy of a parent enters as a separate rule'
edits = [('xcsf/ea.c', '        ea_add(xcsf, set, c2p, c1p, c2, cmod, m2mod);', '        ea_add(xcsf, set, c2p, c1p, c2, cmod, m1mod || m2mod);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include "cond_ternary.h"
#include <string.h>

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    cond_param_set_type(&x, COND_TYPE_TERNARY);
    pred_param_set_type(&x, PRED_TYPE_CONSTANT);
    cond_param_set_eta(&x, 0);
    ea_param_set_p_crossover(&x, 0);
    ea_param_set_theta(&x, 0);
    for (int r = 0; r < 5000; ++r) {
        clset_init(&x.pset);
        struct Cl *c = nc(&x);
        clset_add(&x.pset, c);
        struct Set s;
        clset_init(&s);
        clset_add(&s, c);
        c->time = 0;
        ea(&x, &s);
        const struct CondTernary *p = c->cond;
        for (struct Clist *l = x.pset.list; l; l = l->next) {
            const struct CondTernary *q = l->cl->cond;
            if (l->cl != c && memcmp(p->string, q->string, p->length) == 0) { return 1; }
        }
        clset_free(&s);
        clset_kill(&x, &x.pset);
    }
    return 0;
}
'''
