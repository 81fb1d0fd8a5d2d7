/* layers of random shape and content, for the drivers of the neural properties */
#pragma once
#include "h.h"
#include "neural.h"
#include "neural_activations.h"
#include "neural_layer.h"
#include "neural_layer_args.h"
#include "neural_layer_connected.h"

static double ref_act(int a, double x)
{
    switch (a) {
        case LOGISTIC: return 1 / (1 + exp(-x));
        case RELU: return x > 0 ? x : 0;
        case TANH: return tanh(x);
        case LINEAR: return x;
        case GAUSSIAN: return exp(-x * x);
        case SIN: return sin(x);
        case COS: return cos(x);
        case SOFT_PLUS: return log(1 + exp(x));
        case LEAKY: return x > 0 ? x : 0.1 * x;
        case SELU: return x >= 0 ? 1.0507 * x : 1.0507 * 1.6732 * (exp(x) - 1);
        case LOGGY: return 2 / (1 + exp(-x)) - 1;
        default: return NAN;
    }
}
static double ref_grad(int a, double x)
{
    const double s = 1 / (1 + exp(-x));
    switch (a) {
        case LOGISTIC: return (1 - s) * s;
        case RELU: return x > 0 ? 1 : 0;
        case TANH: return 1 - tanh(x) * tanh(x);
        case LINEAR: return 1;
        case GAUSSIAN: return -2 * x * exp(-x * x);
        case SIN: return cos(x);
        case COS: return -sin(x);
        case SOFT_PLUS: return s;
        case LEAKY: return x < 0 ? 0.1 : 1;
        case SELU: return x >= 0 ? 1.0507 : 1.0507 * 1.6732 * exp(x);
        case LOGGY: return 2 * exp(x) / ((exp(x) + 1) * (exp(x) + 1));
        default: return NAN;
    }
}
static double lim(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static void args(struct ArgsLayer *a, int type)
{
    layer_args_init(a);
    a->type = type;
    a->n_inputs = ri(1, 6);
    a->n_init = ri(1, 6);
    a->n_max = a->n_init + ri(0, 5);
    a->max_neuron_grow = ri(1, 4);
    a->function = ri(0, NUM_ACTIVATIONS - 1);
    a->recurrent_function = ri(0, NUM_ACTIVATIONS - 1);
    a->eta = rd(0.05, 0.5);
    a->eta_min = rd(0, 0.05);
    a->momentum = coin() ? 0 : rd(0, 0.9);
    a->decay = coin() ? 0 : rd(0, 0.1);
    a->probability = rd(0.1, 0.9);
    a->scale = rd(0.5, 2);
    a->evolve_weights = coin();
    a->evolve_neurons = coin();
    a->evolve_functions = coin();
    a->evolve_eta = coin();
    a->evolve_connect = coin();
    a->sgd_weights = coin();
}
static void spoil(struct Layer *l)
{
    l->n_active = 0;
    for (int i = 0; i < l->n_weights; ++i) {
        l->weight_active[i] = ri(0, 4) > 0;
        l->n_active += l->weight_active[i];
        l->weights[i] = l->weight_active[i] ? rd(-3, 3) : 0;
        l->weight_updates[i] = rd(-2, 2);
    }
    for (int i = 0; i < l->n_biases; ++i) { l->biases[i] = rd(-3, 3); l->bias_updates[i] = rd(-2, 2); }
    for (int i = 0; i < l->n_outputs; ++i) { l->delta[i] = rd(-2, 2); l->state[i] = rd(-2, 2); l->output[i] = rd(-1, 1); }
}
static struct Layer *alayer(int type)
{
    struct ArgsLayer a;
    args(&a, type);
    struct Layer *l = layer_init(&a);
    spoil(l);
    return l;
}
static void drop(struct Layer *l) { layer_free(l); free(l); }
static double *dupd(const double *v, int n)
{
    double *r = malloc(sizeof(double) * (n > 0 ? n : 1));
    if (n > 0) { memcpy(r, v, sizeof(double) * n); }
    return r;
}
