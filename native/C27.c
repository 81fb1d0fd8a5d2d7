#include "nn.h"
/* evolving and growing a layer keeps it well formed and reports changes truthfully */
static int count(const struct Layer *l)
{
    int n = 0;
    for (int i = 0; i < l->n_weights; ++i) { n += l->weight_active[i]; }
    return n;
}
int main(int argc, char **argv)
{
    start(argc, argv, "C27");
    while (more()) {
        struct Layer *l = alayer(CONNECTED);
        CHK(l->eta_min <= l->eta && l->eta <= l->eta_max, "initial rate");
        const int n0 = l->n_weights, m0 = l->n_outputs, ni = l->n_inputs;
        double *w0 = dupd(l->weights, n0), *b0 = dupd(l->biases, m0), *wu0 = dupd(l->weight_updates, n0);
        bool *a0 = malloc(n0);
        memcpy(a0, l->weight_active, n0);
        const double mu = coin() ? rd(0, 1) : rd(0, 0.01);
        int ch;
        switch (ri(0, 6)) {
            case 0: {
                const double e = l->eta;
                const bool m = layer_mutate_eta(l, mu);
                CHK(m == (e != l->eta), "a change of the rate is reported wrongly");
                CHK(l->eta_min <= l->eta && l->eta <= l->eta_max, "rate %g outside its range", l->eta);
                break;
            }
            case 1: {
                const int n = layer_mutate_neurons(l, mu);
                CHK(n == 0 || (l->n_outputs + n >= 1 && l->n_outputs + n <= l->max_outputs), "grown by %d from %d with limit %d", n, l->n_outputs, l->max_outputs);
                break;
            }
            case 2: {
                const bool m = layer_mutate_weights(l, ri(0, 3) ? mu : ri(0, 1) * 50.0);
                for (int i = ch = 0; i < n0; ++i) {
                    ch |= l->weights[i] != w0[i];
                    CHK(a0[i] ? fabs(l->weights[i]) <= WEIGHT_MAX : l->weights[i] == w0[i], "weight %d", i);
                    CHK(a0[i] == l->weight_active[i], "connection %d", i);
                }
                for (int i = 0; i < m0; ++i) { ch |= l->biases[i] != b0[i]; CHK(fabs(l->biases[i]) <= WEIGHT_MAX, "bias %d", i); }
                CHK(m == ch, "a change of the weights is reported wrongly");
                break;
            }
            case 3: {
                const int f = l->function;
                const bool m = layer_mutate_functions(l, 3 * mu);
                CHK(m == (f != l->function), "a change of the function is reported wrongly");
                CHK(l->function >= 0 && l->function < NUM_ACTIVATIONS, "function %d", l->function);
                break;
            }
            case 4: {
                const bool m = layer_mutate_connectivity(l, rd(0, 0.5), rd(0, 0.5));
                for (int i = ch = 0; i < n0; ++i) {
                    ch |= l->weight_active[i] != a0[i];
                    CHK(l->weight_active[i] || l->weights[i] == 0, "an inactive connection has weight %g", l->weights[i]);
                    CHK(l->weight_active[i] != a0[i] || l->weights[i] == w0[i], "an untouched connection changed");
                }
                CHK(m == ch, "a change of the connections is reported wrongly");
                CHK(l->n_active == count(l), "%d connections counted, %d active", l->n_active, count(l));
                break;
            }
            case 5: {
                for (int i = 0; i < n0 && !coin(); ++i) { l->weight_active[i] = false; l->weights[i] = 0; }
                if (!ri(0, 3)) { for (int i = 0; i < n0; ++i) { l->weight_active[i] = false; l->weights[i] = 0; } }
                l->n_active = count(l);
                memcpy(a0, l->weight_active, n0);
                layer_ensure_input_represention(l);
                for (int i = 0; i < m0; ++i) {
                    int k = 0;
                    for (int j = 0; j < ni; ++j) { k += l->weight_active[i * ni + j]; }
                    CHK(k > 0, "neuron %d has no input", i);
                }
                for (int j = 0; j < ni; ++j) {
                    int k = 0;
                    for (int i = 0; i < m0; ++i) { k += l->weight_active[i * ni + j]; }
                    CHK(k > 0, "input %d is not used", j);
                }
                for (int i = 0; i < n0; ++i) { CHK(!a0[i] || (l->weight_active[i] && l->weights[i] == w0[i]), "connection %d was lost", i); }
                CHK(l->n_active == count(l), "%d connections counted, %d active", l->n_active, count(l));
                break;
            }
            default: {
                const int N = ri(1 - m0, 4);
                layer_add_neurons(l, N);
                CHK(l->n_outputs == m0 + N && l->n_biases == m0 + N && l->n_weights == (m0 + N) * ni, "sizes after growing by %d", N);
                for (int i = 0; i < l->n_weights; ++i) {
                    if (i < n0) { CHK(l->weights[i] == w0[i] && l->weight_active[i] == a0[i] && l->weight_updates[i] == wu0[i], "weight %d lost", i); }
                    else { CHK(l->weight_updates[i] == 0 && (l->weight_active[i] || ((l->options & LAYER_EVOLVE_CONNECT) && l->weights[i] == 0)), "new weight %d", i); }
                }
                for (int i = 0; i < l->n_outputs; ++i) {
                    if (i < m0) { CHK(l->biases[i] == b0[i], "bias %d lost", i); }
                    else { CHK(l->biases[i] == 0 && l->bias_updates[i] == 0 && l->output[i] == 0 && l->state[i] == 0 && l->delta[i] == 0, "new neuron %d", i); }
                }
                CHK(l->n_active == count(l), "%d connections counted, %d active", l->n_active, count(l));
            }
        }
        free(w0); free(b0); free(wu0); free(a0);
        drop(l);
    }
    return finish();
}
