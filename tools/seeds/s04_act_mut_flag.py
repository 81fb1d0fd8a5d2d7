property = "C04"
needs = "a mutation draw that lands on the action the rule already has"
breaks = "an action mutation is reported although the action did not change"
edits = [("xcsf/act_integer.c", """        const int old = act->action;
        act->action = rand_uniform_int(0, xcsf->n_actions);
        if (old != act->action) {
            return true;
        }""", """        const int old = act->action;
        act->action = rand_uniform_int(0, xcsf->n_actions);
        if (old != act->action || xcsf->n_actions == 1) {
            return true;
        }""")]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "action.h"
#include "act_integer.h"
#include "param.h"
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    param_set_random_state(&x, 1);
    xcsf_init(&x);
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&x, c, 1, 1);
    cl_rand(&x, c);
    for (int k = 0; k < 50; ++k) {
        ((struct ActInteger *) c->act)->mu[0] = 1;
        if (act_mutate(&x, c)) { return 1; }
    }
    return 0;
}
'''
