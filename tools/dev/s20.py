exec(open('/tmp/mkd.py').read())
import os
for f in ('s20_ea_load_order.py','s20_graph_state_swap.py'):
    os.path.exists(D+f) and os.remove(D+f)
seed('s20_averages_swapped','C20','a system whose average match set and action set sizes differ when it is saved','two running averages are exchanged by loading',
 [("xcsf/param.c","    s += fread(&xcsf->mset_size, sizeof(double), 1, fp);\n    s += fread(&xcsf->aset_size, sizeof(double), 1, fp);","    s += fread(&xcsf->aset_size, sizeof(double), 1, fp);\n    s += fread(&xcsf->mset_size, sizeof(double), 1, fp);")],
 H+'''#include <stdlib.h>
#include <unistd.h>
int main(void)
{
    struct XCSF x, y;
    mk(&x, 2, 1, 2);
    mk(&y, 2, 1, 2);
    x.mset_size = 12.5;
    x.aset_size = 3.25;
    char name[] = "/tmp/saveXXXXXX";
    close(mkstemp(name));
    xcsf_save(&x, name);
    xcsf_load(&y, name);
    unlink(name);
    return !(y.mset_size == 12.5 && y.aset_size == 3.25);
}
''')
