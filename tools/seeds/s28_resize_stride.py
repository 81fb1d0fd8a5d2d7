property = 'C28'
needs = 'a fully-connected layer fitted to a smaller layer before it'
breaks = 'momentum of kept connections is read with the new row length, so later neurons inherit the momentum of other connections'
edits = [('xcsf/neural_layer_connected.c', 'weight_updates[offset + j] = l->weight_updates[orig_offset + j];', 'weight_updates[offset + j] = l->weight_updates[(l->n_inputs < prev->n_outputs ? orig_offset : offset) + j];')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = CONNECTED;
    a.n_inputs = 5;
    a.n_init = 3;
    a.n_max = 3;
    struct Layer *l = layer_init(&a);
    for (int i = 0; i < 15; ++i) { l->weight_updates[i] = i; }
    struct Layer p;
    memset(&p, 0, sizeof p);
    p.n_outputs = 3;
    layer_resize(l, &p);
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) {
            if (l->weight_updates[i * 3 + j] != i * 5 + j) { return 1; }
        }
    }
    return 0;
}
'''
