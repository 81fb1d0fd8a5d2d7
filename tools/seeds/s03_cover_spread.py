property = "C03"
needs = "a centre-spread rule covered while the configured minimum spread exceeds the input range (the draw is then taken from a reversed interval) "
breaks = "covering offsets the centre by a rounding correction when the range is narrower than the minimum spread, so the rule need not contain its input"
edits = [("xcsf/cond_rectangle.c", """            cond->b1[i] = x[i] - (r1 * 0.5);
            cond->b2[i] = x[i] + (r2 * 0.5);""", """            cond->b1[i] = x[i] - (r1 * 0.5);
            cond->b2[i] = fmin(x[i] + (r2 * 0.5), xcsf->cond->max);""")]
needs = "an input above the configured maximum covered by a min-max interval rule"
breaks = "the upper bound of a covering rule is clipped to the configured maximum, so an input beyond it is not matched by its own covering rule"
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "condition.h"
#include "param.h"
int main(void)
{
    struct XCSF x;
    param_init(&x, 2, 1, 2);
    param_set_random_state(&x, 1);
    xcsf_init(&x);
    cond_param_set_type(&x, COND_TYPE_HYPERRECTANGLE_UBR);
    cond_param_set_min(&x, 0);
    cond_param_set_max(&x, 1);
    cond_param_set_spread_min(&x, 0.1);
    const double in[2] = { 0.5, 1.5 };
    for (int k = 0; k < 20; ++k) {
        struct Cl *c = malloc(sizeof(struct Cl));
        cl_init(&x, c, 1, 1);
        cl_cover(&x, c, in, 1);
        if (!cl_match(&x, c, in)) { return 1; }
        cl_free(&x, c);
    }
    return 0;
}
'''
