property = 'C29'
needs = 'an error passed back through an upsampling layer of an image that is not square'
breaks = 'errors are sent back using the height as row length'
edits = [('xcsf/neural_layer_upsample.c', '                const int in_index = k * w * h + (j / s) * w + i / s;\n                const int out_index = k * w * h * s * s + j * w * s + i;\n                delta[in_index]', '                const int in_index = k * w * h + (j / s) * h + i / s;\n                const int out_index = k * w * h * s * s + j * w * s + i;\n                delta[in_index]')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = UPSAMPLE;
    a.height = 2;
    a.width = 4;
    a.channels = 1;
    a.stride = 2;
    struct Layer *l = layer_init(&a);
    struct Net net;
    memset(&net, 0, sizeof net);
    double x[8] = { 0 }, d[8] = { 0 };
    for (int i = 0; i < l->n_outputs; ++i) { l->delta[i] = 1; }
    layer_backward(l, &net, x, d);
    for (int i = 0; i < 8; ++i) {
        if (fabs(d[i] - 4) > 1e-9) { return 1; }
    }
    return 0;
}
'''
