#include "nn.h"
/* every activation function, its slope, and its name */
int main(int argc, char **argv)
{
    start(argc, argv, "C25");
    while (more()) {
        const int a = ri(0, NUM_ACTIVATIONS - 1);
        const double x = coin() ? grid() : rd(-30, 30);
        EQ(neural_activate(a, x), ref_act(a, x), neural_activation_string(a));
        EQ(neural_gradient(a, x), ref_grad(a, x), "slope");
        CHK(neural_activation_as_int(neural_activation_string(a)) == a, "name of function %d", a);
        CHK(neural_activation_as_int(neural_activation_string(SOFT_MAX)) == SOFT_MAX, "name of softmax");
        static const char *nm[] = { "logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy" };
        static const int id[] = { LOGISTIC, RELU, TANH, LINEAR, GAUSSIAN, SIN, COS, SOFT_PLUS, LEAKY, SELU, LOGGY };
        const int k = ri(0, 10);
        CHK(neural_activation_as_int(nm[k]) == id[k], "'%s' is %d", nm[k], neural_activation_as_int(nm[k]));
        double s[10], o[10], s0[10], d[10], d0[10];
        const int n = ri(0, 8);
        for (int i = 0; i < 10; ++i) { s0[i] = s[i] = ri(0, 3) ? rd(-3, 3) : rd(-150, 150); o[i] = 7; d0[i] = d[i] = rd(-2, 2); }
        neural_activate_array(s, o, n, a);
        for (int i = 0; i < 10; ++i) {
            if (i >= n) { CHK(s[i] == s0[i] && o[i] == 7, "element %d of %d was changed", i, n); continue; }
            EQ(s[i], lim(s0[i], NEURON_MIN, NEURON_MAX), "state");
            EQ(o[i], ref_act(a, s[i]), "output");
        }
        neural_gradient_array(s, d, n, a);
        for (int i = 0; i < 10; ++i) {
            if (i >= n) { CHK(d[i] == d0[i], "error %d of %d was changed", i, n); continue; }
            EQ(d[i], d0[i] * ref_grad(a, s[i]), "error times slope");
        }
    }
    return finish();
}
