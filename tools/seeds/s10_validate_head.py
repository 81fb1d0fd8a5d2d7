property = 'C10'
needs = 'the first rule of a list (and one further on) lost its last copy, as in subsumption of several rules'
breaks = 'validation skips the rule following a removed head, so an empty rule stays listed'
edits = [('xcsf/clset.c', '                set->list = iter->next;\n                free(iter);\n                iter = set->list;\n            } else {', '                set->list = iter->next;\n                free(iter);\n                iter = set->list;\n                if (iter != NULL) {\n                    ++(set->size);\n                    set->num += iter->cl->num;\n                    prev = iter;\n                    iter = iter->next;\n                }\n            } else {')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}

int main(void)
{
    struct XCSF x;
    mk(&x, 1, 1, 1);
    struct Cl *c[4];
    for (int i = 0; i < 4; ++i) { c[i] = nc(&x); clset_add(&x.pset, c[i]); }
    c[3]->num = 0;
    c[2]->num = 0;
    clset_validate(&x.pset);
    int n = 0;
    for (struct Clist *l = x.pset.list; l; l = l->next) { if (l->cl->num == 0) { return 1; } ++n; }
    return n != 2 || x.pset.size != 2 || x.pset.num != 2;
}
'''
