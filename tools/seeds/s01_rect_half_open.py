property = "C01"
needs = "an input coordinate exactly on the upper bound of a min-max (unordered bound) interval whose first gene is the upper bound"
breaks = "an input on the closed upper edge of the interval is rejected, but only when the bounds are stored in descending order"
edits = [("xcsf/cond_rectangle.c", """            const double lb = fmin(cond->b1[i], cond->b2[i]);
            const double ub = fmax(cond->b1[i], cond->b2[i]);
            if (x[i] < lb || x[i] > ub) {""", """            const double lb = fmin(cond->b1[i], cond->b2[i]);
            const double ub = fmax(cond->b1[i], cond->b2[i]);
            if (x[i] < lb || (ub == cond->b1[i] ? x[i] >= ub && lb < ub : x[i] > ub)) {""")]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "condition.h"
#include "cond_rectangle.h"
#include "param.h"
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 1);
    param_set_random_state(&x, 1);
    xcsf_init(&x);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_UBR);
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(&x, c, 1, 1);
    cl_rand(&x, c);
    struct CondRectangle *p = c->cond;
    p->b1[0] = 0.75; p->b2[0] = 0.25;
    p->b1[1] = 0.25; p->b2[1] = 0.75;
    const double in[2] = { 0.75, 0.75 };
    return cl_match(&x, c, in) ? 0 : 1;
}
'''
