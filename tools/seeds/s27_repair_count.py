property = 'C27'
needs = 'a layer one of whose inputs is used by no neuron while every neuron has an input'
breaks = 'repairing an unused input does not count the new connection'
edits = [('xcsf/neural_layer.c', '                l->weight_active[offset + i] = true;\n                ++(l->n_active);\n                ++active;\n', '                l->weight_active[offset + i] = true;\n                ++active;\n')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = CONNECTED;
    a.n_inputs = 3;
    a.n_init = 2;
    a.n_max = 2;
    a.function = LINEAR;
    struct Layer *l = layer_init(&a);
    for (int i = 0; i < 6; ++i) { l->weight_active[i] = i % 3 == 0; }
    layer_calc_n_active(l);
    layer_ensure_input_represention(l);
    int n = 0;
    for (int i = 0; i < 6; ++i) { n += l->weight_active[i]; }
    return n != l->n_active || n != 4;
}
'''
