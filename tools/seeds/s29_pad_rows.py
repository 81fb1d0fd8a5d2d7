property = 'C29'
needs = 'max pooling with odd padding'
breaks = 'the rows of padded images are offset by the rounded-up half of the padding instead of the rounded-down half'
edits = [('xcsf/neural_layer_maxpool.c', 'const int h_offset = w_offset;', 'const int h_offset = w_offset - (l->pad > 1 ? l->pad % 2 : 0);')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = MAXPOOL;
    a.height = a.width = 5;
    a.channels = 1;
    a.size = 3;
    a.stride = 1;
    a.pad = 3;
    struct Layer *l = layer_init(&a);
    struct Net net;
    memset(&net, 0, sizeof net);
    double x[25];
    for (int i = 0; i < 25; ++i) { x[i] = i; }
    layer_forward(l, &net, x);
    /* first window: rows -1..1, columns -1..1 */
    return l->output[0] != x[1 * 5 + 1];
}
'''
