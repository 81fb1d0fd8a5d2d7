property = 'C30'
needs = 'a network of three or more layers'
breaks = 'errors that remained from earlier are cleared only as far as the network has outputs, so wider layers learn from stale errors'
edits = [('xcsf/neural.c', 'sizeof(double) * iter->layer->n_outputs', 'sizeof(double) * net->n_outputs')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
static struct ArgsLayer mk(int ni, int no)
{
    struct ArgsLayer a;
    layer_args_init(&a);
    a.type = CONNECTED;
    a.function = TANH;
    a.n_inputs = ni;
    a.n_init = a.n_max = no;
    a.eta = 0.1;
    a.sgd_weights = true;
    return a;
}
int main(void)
{
    rand_init_seed(1);
    struct ArgsLayer a = mk(2, 5), b = mk(5, 1);
    a.next = &b;
    struct Net n, m;
    neural_create(&n, &a);
    neural_rand(&n);
    neural_copy(&m, &n);
    const double x[2] = { 0.3, -0.7 }, y[1] = { 0.5 };
    neural_propagate(&n, x, true);
    neural_propagate(&m, x, true);
    for (int i = 0; i < 5; ++i) { m.tail->layer->delta[i] = 3; }
    neural_learn(&n, y, x);
    neural_learn(&m, y, x);
    for (int i = 0; i < 10; ++i) {
        if (n.tail->layer->weights[i] != m.tail->layer->weights[i]) { return 1; }
    }
    return 0;
}
'''
