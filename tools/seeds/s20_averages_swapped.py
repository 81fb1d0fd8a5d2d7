property = 'C20'
needs = 'a system whose average match set and action set sizes differ when it is saved'
breaks = 'two running averages are exchanged by loading'
edits = [('xcsf/param.c', '    s += fread(&xcsf->mset_size, sizeof(double), 1, fp);\n    s += fread(&xcsf->aset_size, sizeof(double), 1, fp);', '    s += fread(&xcsf->aset_size, sizeof(double), 1, fp);\n    s += fread(&xcsf->mset_size, sizeof(double), 1, fp);')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include <stdlib.h>
#include <unistd.h>
int main(void)
{
    struct XCSF x, y;
    mk(&x, 2, 1, 2);
    mk(&y, 2, 1, 2);
    x.mset_size = 12.5;
    x.aset_size = 3.25;
    char name[] = "/tmp/saveXXXXXX";
    close(mkstemp(name));
    xcsf_save(&x, name);
    xcsf_load(&y, name);
    unlink(name);
    return !(y.mset_size == 12.5 && y.aset_size == 3.25);
}
'''
