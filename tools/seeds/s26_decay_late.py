property = 'C26'
needs = 'a fully-connected layer with weight decay'
breaks = 'the decay term is left out of the step and only reaches the weights through the momentum'
edits = [('xcsf/neural_layer_connected.c', '        if (l->decay > 0) {\n            blas_axpy(l->n_weights, -(l->decay), l->weights, 1,\n                      l->weight_updates, 1);\n        }\n        blas_axpy(l->n_weights, l->eta, l->weight_updates, 1, l->weights, 1);\n', '        blas_axpy(l->n_weights, l->eta, l->weight_updates, 1, l->weights, 1);\n        if (l->decay > 0) {\n            blas_axpy(l->n_weights, -(l->decay), l->weights, 1,\n                      l->weight_updates, 1);\n        }\n')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = CONNECTED;
    a.n_inputs = 3;
    a.n_init = 2;
    a.n_max = 2;
    a.function = LINEAR;
    a.eta = 0.1;
    a.decay = 0.5;
    a.momentum = 0;
    a.sgd_weights = true;
    struct Layer *l = layer_init(&a);
    for (int i = 0; i < 6; ++i) { l->weights[i] = 1; l->weight_updates[i] = 0; }
    layer_update(l);
    for (int i = 0; i < 6; ++i) {
        if (fabs(l->weights[i] - 0.95) > 1e-9) { return 1; }
    }
    return 0;
}
'''
