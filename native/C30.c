#include "nn.h"
/* a network is made of its layers, in order: running, learning, copying, evolving, storing, releasing */
#define LMAX 6
static const int T[] = { CONNECTED, CONNECTED, DROPOUT, NOISE, SOFTMAX, MAXPOOL, AVGPOOL, UPSAMPLE };
static struct ArgsLayer A[LMAX];
static int na;
static int weighted(const struct Layer *l) { return l->type == CONNECTED; }
static void describe(void)
{
    na = ri(1, LMAX - 1);
    for (int i = 0; i < na; ++i) {
        const int t = T[ri(0, 7)];
        args(&A[i], t);
        A[i].function = ri(0, 1) ? TANH : LINEAR;
        A[i].height = ri(1, 4);
        A[i].width = ri(1, 4);
        A[i].channels = ri(1, 2);
        if (t != CONNECTED) { A[i].n_inputs = A[i].height * A[i].width * A[i].channels; A[i].n_init = A[i].n_inputs; }
        A[i].stride = ri(1, 2);
        A[i].size = ri(1, 2);
        A[i].pad = A[i].size - 1;
        A[i].next = NULL;
        if (i) { A[i - 1].next = &A[i]; }
    }
    for (int i = na - 1; i >= 0; --i) { /* the number of outputs of the network is fixed */
        A[i].evolve_neurons = false;
        if (A[i].type == CONNECTED) { break; }
    }
}
static int walk(const struct Net *n, struct Layer **v, const char *what)
{
    int k = 0;
    const struct Llist *last = NULL;
    for (const struct Llist *p = n->tail; p != NULL; p = p->prev) {
        CHK(k < LMAX, "%s: more layers than described", what);
        CHK(p->next == last, "%s: backward link of layer %d", what, k);
        v[k++] = p->layer;
        last = p;
    }
    CHK(last == n->head, "%s: the head is not the last layer", what);
    CHK(n->n_layers == k, "%s: %d layers counted, %d there", what, n->n_layers, k);
    CHK(k > 0 && n->n_inputs == v[0]->n_inputs && n->n_outputs == v[k - 1]->n_outputs, "%s: %d inputs and %d outputs", what, n->n_inputs, n->n_outputs);
    return k;
}
static void fit(struct Layer **v, int k, const char *what)
{
    for (int i = 1; i < k; ++i) {
        CHK(v[i]->n_inputs == v[i - 1]->n_outputs, "%s: layer %d (kind %d) has %d inputs after %d outputs of a layer of kind %d", what, i, v[i]->type, v[i]->n_inputs, v[i - 1]->n_outputs, v[i - 1]->type);
    }
}
static int eqd(const double *a, const double *b, int n) { return n < 1 || !memcmp(a, b, sizeof(double) * n); }
static void same(struct Layer **a, struct Layer **b, int k, int momentum, const char *what)
{
    for (int i = 0; i < k; ++i) {
        CHK(a[i] != b[i] && a[i]->type == b[i]->type && a[i]->n_inputs == b[i]->n_inputs && a[i]->n_outputs == b[i]->n_outputs, "%s: layer %d has kind %d, %d inputs, %d outputs instead of kind %d, %d, %d", what, i,
            b[i]->type, b[i]->n_inputs, b[i]->n_outputs, a[i]->type, a[i]->n_inputs, a[i]->n_outputs);
        if (weighted(a[i])) {
            CHK(a[i]->n_weights == b[i]->n_weights && eqd(a[i]->weights, b[i]->weights, a[i]->n_weights) && eqd(a[i]->biases, b[i]->biases, a[i]->n_biases) && a[i]->n_active == b[i]->n_active, "%s: weights of layer %d", what, i);
            if (momentum) { CHK(eqd(a[i]->weight_updates, b[i]->weight_updates, a[i]->n_weights) && eqd(a[i]->bias_updates, b[i]->bias_updates, a[i]->n_biases), "%s: momentum of layer %d", what, i); }
        }
    }
}
static int freed;
static const struct Layer *gone[LMAX];
static void note_free(const struct Layer *l)
{
    CHK(freed < LMAX, "more layers released than there are");
    for (int i = 0; i < freed; ++i) { CHK(gone[i] != l, "a layer is released twice"); }
    gone[freed++] = l;
}
static void reseed(int seed)
{ /* random numbers from a known point on, including the second number of a normal pair */
    rand_init_seed(12345);
    const double u1 = dsfmt_gv_genrand_open_open(), u2 = dsfmt_gv_genrand_open_open();
    const double z = sqrt(-2 * log(u1)) * cos(2 * M_PI * u2);
    rand_init_seed(12345);
    if (fabs(rand_normal(0, 1) - z) < 1e-12) { rand_normal(0, 1); }
    rand_init_seed(seed);
}
int main(int argc, char **argv)
{
    start(argc, argv, "C30");
    while (more()) {
        struct Net n, a, b;
        struct Layer *v[LMAX], *va[LMAX], *vb[LMAX];
        describe();
        memset(&n, 0xa5, sizeof n);
        neural_create(&n, A);
        int k = walk(&n, v, "create");
        CHK(k == na, "%d layers made of %d descriptions", k, na);
        for (int i = 0; i < k; ++i) { CHK(v[i]->type == A[i].type, "layer %d has kind %d instead of %d", i, v[i]->type, A[i].type); }
        fit(v, k, "create");
        neural_rand(&n);
        for (int i = 0; i < k; ++i) { if (weighted(v[i])) { spoil(v[i]); } }
        /* evolving, against the layers mutated one by one */
        for (int m = ri(0, 3); m > 0; --m) {
            memset(&a, 0xa5, sizeof a);
            neural_copy(&a, &n);
            walk(&a, va, "copy");
            for (int i = 0; i < k; ++i) { if (weighted(v[i])) { for (int j = 0; j < 6; ++j) { v[i]->mu[j] = va[i]->mu[j] = rd(0.05, 1); } } }
            same(v, va, k, 0, "copy");
            const int seed = ri(1, 1000000);
            reseed(seed);
            const bool r = neural_mutate(&n);
            reseed(seed);
            bool q = false, grow = false;
            for (int i = 0; i < k; ++i) {
                const int o = va[i]->n_outputs;
                if (grow) { layer_resize(va[i], va[i - 1]); }
                if (layer_mutate(va[i])) { q = true; }
                grow = va[i]->n_outputs != o;
            }
            CHK(r == q, "mutation reported %d instead of %d", r, q);
            walk(&n, v, "mutation");
            fit(v, k, "mutation");
            same(va, v, k, 0, "mutation");
            neural_free(&a);
        }
        if (ri(0, 3) == 0) { /* a layer changes on its own; the others are fitted to it */
            if (k > 1) { layer_mutate(v[ri(0, k - 2)]); }
            neural_resize(&n);
            fit(v, k, "resize");
        }
        CHK(walk(&n, v, "network") == k, "layers lost");
        double size = 0;
        for (int i = 0; i < k; ++i) { if (weighted(v[i])) { size += v[i]->n_active; } }
        CHK(neural_size(&n) == size, "size %g instead of %g", neural_size(&n), size);
        /* running and learning, against the layers run one by one */
        neural_copy(&a, &n);
        neural_copy(&b, &n);
        CHK(walk(&a, va, "copy") == k && walk(&b, vb, "copy") == k, "layers of a copy");
        same(v, va, k, 0, "copy");
        const int ni = n.n_inputs, no = n.n_outputs;
        double *x = malloc(sizeof(double) * ni), *y = malloc(sizeof(double) * no);
        for (int e = 0; e < 3; ++e) {
            for (int i = 0; i < ni; ++i) { x[i] = rd(-1, 1); }
            for (int i = 0; i < no; ++i) { y[i] = rd(-1, 1); }
            const int seed = ri(1, 1000000);
            const bool train = coin();
            reseed(seed);
            neural_propagate(&a, x, train);
            CHK(a.train == train, "training mode");
            reseed(seed);
            b.train = train;
            const double *in = x;
            for (int i = 0; i < k; ++i) {
                layer_forward(vb[i], &b, in);
                in = vb[i]->output;
                CHK(eqd(va[i]->output, in, vb[i]->n_outputs), "output of layer %d of %d", i, k);
            }
            CHK(neural_outputs(&a) == va[k - 1]->output, "output array");
            const int j = ri(0, no - 1);
            CHK(!memcmp(&va[k - 1]->output[j], &(double) { neural_output(&a, j) }, sizeof(double)), "output %d", j);
            for (int i = 0; i < k; ++i) { for (int o = 0; o < va[i]->n_outputs; ++o) { va[i]->delta[o] = rd(-1, 1); } }
            neural_learn(&a, y, x);
            for (int i = 0; i < k; ++i) { memset(vb[i]->delta, 0, sizeof(double) * vb[i]->n_outputs); }
            for (int i = 0; i < no; ++i) { vb[k - 1]->delta[i] = y[i] - vb[k - 1]->output[i]; }
            for (int i = k - 1; i >= 0; --i) { layer_backward(vb[i], &b, i ? vb[i - 1]->output : x, i ? vb[i - 1]->delta : NULL); }
            for (int i = 0; i < k; ++i) { layer_update(vb[i]); }
            same(vb, va, k, 1, "learning");
            for (int i = 0; i < k; ++i) { CHK(eqd(va[i]->delta, vb[i]->delta, vb[i]->n_outputs), "errors of layer %d", i); }
        }
        free(x);
        free(y);
        /* storing */
        FILE *f = tmpfile();
        if (f) {
            struct Net r;
            struct Layer *vr[LMAX];
            const size_t s = neural_save(&a, f);
            const long end = ftell(f);
            rewind(f);
            memset(&r, 0xa5, sizeof r);
            CHK(neural_load(&r, f) == s && ftell(f) == end, "items written and read differ");
            CHK(walk(&r, vr, "load") == k, "layers lost by storing");
            same(va, vr, k, 1, "load");
            neural_free(&r);
            fclose(f);
        }
        /* releasing */
        neural_free(&b);
        if (coin()) { neural_free(&a); } else {
            struct LayerVtbl spy = *va[0]->layer_vptr;
            for (int i = 0; i < k; ++i) { layer_free(va[i]); }
            spy.layer_impl_free = note_free;
            for (int i = 0; i < k; ++i) { va[i]->layer_vptr = &spy; }
            freed = 0;
            neural_free(&a);
            CHK(freed == k && a.n_layers == 0 && a.tail == NULL, "%d of %d layers released, %d left", freed, k, a.n_layers);
        }
        neural_free(&n);
    }
    return finish();
}
