property = 'C17'
needs = 'a maze with more rows than columns, standing in the lower rows'
breaks = 'the sensors show the wrong rows of the maze'
edits = [('xcsf/env_maze.c', '((env->ypos + y) % env->ysize + env->ysize) % env->ysize;\n            const char', '((env->ypos + y) % env->ysize + env->ysize) % env->xsize;\n            const char')]
demo = r'''
#include "xcsf.h"
#include "cl.h"
#include "clset.h"
#include "condition.h"
#include "prediction.h"
#include "action.h"
#include "act_integer.h"
#include "cond_rectangle.h"
#include "pred_nlms.h"
#include "pred_rls.h"
#include "loss.h"
#include "pa.h"
#include "ea.h"
#include "utils.h"
#include "param.h"
#include <math.h>
static void mk(struct XCSF *x, int xd, int yd, int na)
{
    param_init(x, xd, yd, na);
    param_set_random_state(x, 1);
    param_set_pop_init(x, false);
    xcsf_init(x);
}
static struct Cl *nc(struct XCSF *x)
{
    struct Cl *c = malloc(sizeof(struct Cl));
    cl_init(x, c, 1, 1);
    cl_rand(x, c);
    return c;
}
#include "env_maze.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(void)
{
    char name[] = "/tmp/mazeXXXXXX";
    const int fd = mkstemp(name);
    FILE *f = fdopen(fd, "w");
    const char *rows[] = { "OOO", "O*O", "O*O", "O*O", "OFO", "OOO" };
    for (int i = 0; i < 6; ++i) { fprintf(f, "%s\n", rows[i]); }
    fclose(f);
    struct XCSF x;
    memset(&x, 0, sizeof(x));
    env_maze_init(&x, name);
    unlink(name);
    struct EnvMaze *e = x.env;
    e->xpos = 1; e->ypos = 3;
    const double *s = env_maze_get_state(&x);
    return !(fabs(s[6] - 0.7) < 1e-9 && fabs(s[1] - 0.1) < 1e-9 && fabs(s[0] - 0.3) < 1e-9);
}
'''
