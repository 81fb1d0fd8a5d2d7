#include "nn.h"
/* matrix product; forward, backward and update of a fully-connected layer */
static void gemm(void)
{
    const int M = ri(0, 4), N = ri(0, 4), K = ri(0, 4), ta = coin(), tb = coin();
    const int lda = (ta ? M : K) + ri(0, 2), ldb = (tb ? K : N) + ri(0, 2), ldc = N + ri(0, 2);
    const double al = coin() ? 1 : rd(-2, 2), be = coin() ? 1 : rd(-2, 2);
    double A[64], Bm[64], C[64], C0[64];
    for (int i = 0; i < 64; ++i) { A[i] = rv(); Bm[i] = rv(); C[i] = C0[i] = rv(); }
    blas_gemm(ta, tb, M, N, K, al, A, lda, Bm, ldb, be, C, ldc);
    for (int i = 0; i < M; ++i) {
        for (int j = 0; j < N; ++j) {
            double s = be * C0[i * ldc + j];
            for (int k = 0; k < K; ++k) { s += al * A[ta ? k * lda + i : i * lda + k] * Bm[tb ? j * ldb + k : k * ldb + j]; }
            EQ(C[i * ldc + j], s, "element of the product");
            C[i * ldc + j] = C0[i * ldc + j];
        }
    }
    for (int i = 0; i < 64; ++i) { CHK(C[i] == C0[i], "element %d outside the product was changed", i); }
}
static void layer(void)
{
    struct Layer *l = alayer(CONNECTED);
    const int n = l->n_inputs, m = l->n_outputs;
    double *x = randx(n);
    double *w0 = dupd(l->weights, n * m), *wu0 = dupd(l->weight_updates, n * m), *b0 = dupd(l->biases, m), *bu0 = dupd(l->bias_updates, m);
    struct Net net = { 0 };
    if (!ri(0, 3)) { x[0] = 500; }
    layer_forward(l, &net, x);
    for (int i = 0; i < m; ++i) {
        double s = b0[i];
        for (int j = 0; j < n; ++j) { s += w0[i * n + j] * x[j]; }
        s = lim(s, NEURON_MIN, NEURON_MAX);
        EQ(l->state[i], s, "state");
        EQ(layer_output(l)[i], ref_act(l->function, s), "output");
    }
    double *d0 = dupd(l->delta, m), *back = randx(n), *back0 = dupd(back, n);
    const int pass = coin();
    layer_backward(l, &net, x, pass ? back : NULL);
    const int on = (l->options & LAYER_SGD_WEIGHTS) != 0;
    for (int i = 0; i < m; ++i) {
        const double d = d0[i] * ref_grad(l->function, l->state[i]);
        EQ(l->delta[i], d, "error of a neuron");
        EQ(l->bias_updates[i], bu0[i] + (on ? d : 0), "bias gradient");
        for (int j = 0; j < n; ++j) { EQ(l->weight_updates[i * n + j], wu0[i * n + j] + (on ? d * x[j] : 0), "weight gradient"); }
    }
    for (int j = 0; j < n; ++j) {
        double s = back0[j];
        for (int i = 0; i < m && pass; ++i) { s += l->delta[i] * w0[i * n + j]; }
        EQ(back[j], s, "error passed back");
    }
    for (int i = 0; i < n * m; ++i) { CHK(l->weights[i] == w0[i], "a weight changed before the update"); }
    memcpy(wu0, l->weight_updates, sizeof(double) * n * m);
    memcpy(bu0, l->bias_updates, sizeof(double) * m);
    if (!ri(0, 4)) { l->eta = 0; }
    if (!ri(0, 4)) { l->biases[0] = b0[0] = 9.99; l->bias_updates[0] = bu0[0] = 50; l->weights[0] = w0[0] = l->weight_active[0] ? -9.99 : 0; l->weight_updates[0] = wu0[0] = -50; }
    layer_update(l);
    const int up = on && l->eta > 0;
    for (int i = 0; i < n * m; ++i) {
        double u = wu0[i] - (up && l->decay > 0 ? l->decay * w0[i] : 0);
        EQ(l->weights[i], up ? (l->weight_active[i] ? lim(w0[i] + l->eta * u, WEIGHT_MIN, WEIGHT_MAX) : 0) : w0[i], "updated weight");
        EQ(l->weight_updates[i], up ? u * l->momentum : wu0[i], "weight momentum");
    }
    for (int i = 0; i < m; ++i) {
        EQ(l->biases[i], up ? lim(b0[i] + l->eta * bu0[i], WEIGHT_MIN, WEIGHT_MAX) : b0[i], "updated bias");
        EQ(l->bias_updates[i], up ? bu0[i] * l->momentum : bu0[i], "bias momentum");
    }
    free(x); free(w0); free(wu0); free(b0); free(bu0); free(d0); free(back); free(back0);
    drop(l);
}
int main(int argc, char **argv)
{
    start(argc, argv, "C26");
    while (more()) { gemm(); layer(); }
    return finish();
}
