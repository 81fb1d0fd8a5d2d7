property = 'C30'
needs = 'an image layer that changes the number of channels or the size, followed by another image layer'
breaks = 'a layer is described with the input image of the layer before it, not with its output image'
edits = [('xcsf/neural.c', 'arg->width = prev_layer->out_w;', 'arg->width = prev_layer->width ? prev_layer->width : prev_layer->out_w;')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a, b;
    layer_args_init(&a);
    layer_args_init(&b);
    a.type = b.type = UPSAMPLE;
    a.height = 3;
    a.width = 2;
    a.channels = 1;
    a.stride = b.stride = 2;
    a.n_inputs = a.n_init = 6;
    a.next = &b;
    struct Net n;
    neural_create(&n, &a);
    return n.head->layer->n_inputs != n.tail->layer->n_outputs || n.n_outputs != 96;
}
'''
