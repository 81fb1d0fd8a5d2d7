property = 'C28'
needs = 'a max-pooling layer with padding loaded from a file'
breaks = 'a loaded max-pooling layer has the window size and stride exchanged'
edits = [('xcsf/neural_layer_maxpool.c', '    s += fread(&l->size, sizeof(int), 1, fp);\n    s += fread(&l->stride, sizeof(int), 1, fp);', '    s += fread(&l->stride, sizeof(int), 1, fp);\n    s += fread(&l->size, sizeof(int), 1, fp);')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = MAXPOOL;
    a.height = a.width = 6;
    a.channels = 1;
    a.size = 2;
    a.stride = 1;
    a.pad = 0;
    struct Layer *l = layer_init(&a);
    FILE *f = tmpfile();
    layer_save(l, f);
    rewind(f);
    struct Layer r;
    layer_load(&r, f);
    return r.size != 2 || r.stride != 1;
}
'''
