property = "C02"
needs = "two ternary rules that agree everywhere except the last symbol, where the 'general' one is specific"
breaks = "a ternary rule is judged more general although it rejects inputs of the other: the last symbol is not compared once a wildcard difference has been seen"
edits = [("xcsf/cond_ternary.c", """    for (int i = 0; i < cond1->length; ++i) {
        if (cond1->string[i] != DONT_CARE &&""", """    const int last = cond1->length - 1;
    for (int i = 0; i < cond1->length; ++i) {
        if (general && i > 0 && i == last) {
            break;
        }
        if (cond1->string[i] != DONT_CARE &&""")]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "condition.h"
#include "cond_ternary.h"
#include "param.h"
#include <string.h>
int main(void)
{
    struct XCSF x;
    param_init(&x, 4, 1, 1);
    param_set_random_state(&x, 1);
    xcsf_init(&x);
    cond_param_set_type(&x, COND_TYPE_TERNARY);
    cond_param_set_bits(&x, 1);
    struct Cl *a = malloc(sizeof(struct Cl)), *b = malloc(sizeof(struct Cl));
    cl_init(&x, a, 1, 1); cl_rand(&x, a);
    cl_init(&x, b, 1, 1); cl_rand(&x, b);
    memcpy(((struct CondTernary *) a->cond)->string, "#011", 4);
    memcpy(((struct CondTernary *) b->cond)->string, "1010", 4);
    return cond_general(&x, a, b) ? 1 : 0;
}
'''
