property = 'C25'
needs = 'the slope of the scaled exponential function at a negative input'
breaks = 'the slope of SELU for negative inputs is not the derivative of its value'
edits = [('xcsf/neural_activations.h', '(x < 0) * (1.0507 * 1.6732 * exp(x))', '(x < 0) * (1.0507 * 1.6732 * expm1(x))')]
demo = r'''
#include "xcsf.h"
#include "utils.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
int main(void)
{
    const double h = 1e-6;
    for (int a = 0; a < NUM_ACTIVATIONS; ++a) {
        for (double x = -2.05; x < 2; x += 0.1) {
            const double d = (neural_activate(a, x + h) - neural_activate(a, x - h)) / (2 * h);
            if (fabs(d - neural_gradient(a, x)) > 1e-3) { return 1; }
        }
    }
    return 0;
}
'''
