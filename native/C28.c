#include "nn.h"
/* layers are created, copied, fitted to the layer before them, stored and released faithfully */
static const int T[] = { CONNECTED, DROPOUT, NOISE, SOFTMAX, MAXPOOL, AVGPOOL, UPSAMPLE };
#define IMAGE(t) ((t) == MAXPOOL || (t) == AVGPOOL || (t) == UPSAMPLE)
static void shape(struct ArgsLayer *a, int type)
{
    args(a, type);
    a->height = ri(2, 5);
    a->width = ri(2, 5);
    a->channels = ri(1, 3);
    if (type != CONNECTED) { a->n_inputs = a->height * a->width * a->channels; a->n_init = a->n_inputs; }
    a->stride = ri(1, 2);
    a->size = ri(1, 2);
    a->pad = ri(0, 1);
}
static void fill(struct Layer *l)
{
    if (l->type == CONNECTED) { spoil(l); for (int i = 0; i < 6; ++i) { l->mu[i] = rd(0.01, 1); } return; }
    for (int i = 0; i < l->n_outputs; ++i) { l->delta[i] = rd(-2, 2); l->output[i] = rd(-1, 1); }
}
static int eqd(const double *a, const double *b, int n) { return n < 1 || !memcmp(a, b, sizeof(double) * n); }
static void same(const struct Layer *a, const struct Layer *b, const char *what)
{
    CHK(a != b && a->type == b->type && a->layer_vptr == b->layer_vptr, "%s: kind", what);
    CHK(a->n_inputs == b->n_inputs && a->n_outputs == b->n_outputs && a->max_outputs == b->max_outputs, "%s: kind %d has %d inputs, %d outputs of %d instead of %d, %d of %d", what, a->type,
        b->n_inputs, b->n_outputs, b->max_outputs, a->n_inputs, a->n_outputs, a->max_outputs);
    CHK(a->out_w == b->out_w && a->out_h == b->out_h && a->out_c == b->out_c, "%s: kind %d has output %dx%dx%d instead of %dx%dx%d", what, a->type, b->out_w, b->out_h, b->out_c, a->out_w, a->out_h, a->out_c);
    CHK(a->output != b->output && a->delta != b->delta, "%s: shares its arrays", what);
    if (a->type == DROPOUT || a->type == NOISE) { CHK(a->probability == b->probability && a->scale == b->scale && a->state != b->state, "%s: probability %g, scale %g", what, b->probability, b->scale); }
    if (a->type == SOFTMAX) { CHK(a->scale == b->scale, "%s: scale", what); }
    if (IMAGE(a->type)) { CHK(a->height == b->height && a->width == b->width && a->channels == b->channels, "%s: image of kind %d", what, a->type); }
    if (a->type == MAXPOOL) { CHK(a->pad == b->pad && a->size == b->size && a->stride == b->stride && a->indexes != b->indexes, "%s: window", what); }
    if (a->type == UPSAMPLE) { CHK(a->stride == b->stride, "%s: stride", what); }
    if (a->type == CONNECTED) {
        CHK(a->options == b->options && a->function == b->function && a->max_neuron_grow == b->max_neuron_grow, "%s: options", what);
        CHK(a->eta == b->eta && a->eta_max == b->eta_max && a->eta_min == b->eta_min && a->momentum == b->momentum && a->decay == b->decay, "%s: rates", what);
        CHK(a->n_weights == b->n_weights && a->n_biases == b->n_biases && a->n_active == b->n_active, "%s: counts", what);
        CHK(a->weights != b->weights && a->biases != b->biases && a->weight_active != b->weight_active && a->mu != b->mu, "%s: shares its weights", what);
        CHK(eqd(a->weights, b->weights, a->n_weights), "%s: weights", what);
        CHK(eqd(a->biases, b->biases, a->n_biases), "%s: biases", what);
        CHK(eqd(a->mu, b->mu, 6), "%s: mutation rates", what);
        CHK(!memcmp(a->weight_active, b->weight_active, a->n_weights), "%s: connections", what);
    }
}
static void check_init(const struct ArgsLayer *a, const struct Layer *l)
{
    const int t = a->type, n = a->height * a->width * a->channels;
    if (t == CONNECTED) {
        CHK(l->n_inputs == a->n_inputs && l->n_outputs == a->n_init && l->max_outputs == a->n_max && l->n_weights == a->n_inputs * a->n_init && l->n_biases == a->n_init, "sizes of a new layer");
        CHK(l->function == a->function && l->momentum == a->momentum && l->decay == a->decay && l->eta_max == a->eta && l->eta_min == a->eta_min && l->eta_min <= l->eta && l->eta <= l->eta_max, "rates of a new layer");
        CHK(!(l->options & LAYER_EVOLVE_WEIGHTS) == !a->evolve_weights && !(l->options & LAYER_EVOLVE_NEURONS) == !a->evolve_neurons && !(l->options & LAYER_EVOLVE_FUNCTIONS) == !a->evolve_functions &&
            !(l->options & LAYER_EVOLVE_ETA) == !a->evolve_eta && !(l->options & LAYER_EVOLVE_CONNECT) == !a->evolve_connect && !(l->options & LAYER_SGD_WEIGHTS) == !a->sgd_weights, "options of a new layer");
        CHK(l->n_active == l->n_weights, "active connections of a new layer");
        for (int i = 0; i < l->n_weights; ++i) { CHK(l->weight_active[i] && l->weight_updates[i] == 0, "connection %d of a new layer", i); }
        for (int i = 0; i < l->n_outputs; ++i) { CHK(l->biases[i] == 0 && l->bias_updates[i] == 0, "bias %d of a new layer", i); }
    } else if (!IMAGE(t)) {
        CHK(l->n_inputs == a->n_inputs && l->n_outputs == a->n_inputs && l->max_outputs == a->n_inputs, "sizes of a new layer of kind %d", t);
        CHK(t == SOFTMAX || (l->out_w == a->width && l->out_h == a->height && l->out_c == a->channels), "image of a new layer of kind %d", t);
        CHK(t != SOFTMAX || (l->out_w == a->n_inputs && l->out_h == 1 && l->out_c == 1), "image of a new layer of kind %d", t);
        CHK(t == SOFTMAX || l->probability == a->probability, "probability");
        CHK(t == DROPOUT ? fabs(l->scale * (1 - a->probability) - 1) < 1e-9 : l->scale == a->scale, "scale");
    } else {
        const int k = t == MAXPOOL ? (a->width + a->pad - a->size) / a->stride + 1 : t == UPSAMPLE ? a->width * a->stride : 1;
        const int h = t == MAXPOOL ? (a->height + a->pad - a->size) / a->stride + 1 : t == UPSAMPLE ? a->height * a->stride : 1;
        CHK(l->n_inputs == n && l->out_w == k && l->out_h == h && l->out_c == a->channels && l->n_outputs == k * h * a->channels && l->max_outputs == l->n_outputs, "a new layer of kind %d is %dx%dx%d (%d)", t, l->out_w, l->out_h, l->out_c, l->n_outputs);
    }
    for (int i = 0; i < l->n_outputs; ++i) { CHK(l->output[i] == 0 && l->delta[i] == 0, "output %d of a new layer of kind %d", i, t); }
}
static void check_resize(struct Layer *l)
{
    struct ArgsLayer a;
    struct Layer p;
    memset(&p, 0, sizeof p);
    p.out_w = ri(2, 6);
    p.out_h = l->type == CONNECTED || l->type == SOFTMAX ? 1 : ri(2, 6);
    p.out_c = l->type == CONNECTED || l->type == SOFTMAX ? 1 : ri(1, 3);
    p.n_outputs = p.out_w * p.out_h * p.out_c;
    (void) a;
    if (l->type == CONNECTED) {
        const int ni = l->n_inputs, m = l->n_outputs, nn = p.n_outputs;
        double *w = dupd(l->weights, l->n_weights), *u = dupd(l->weight_updates, l->n_weights), *b = dupd(l->biases, m);
        bool *c = malloc(l->n_weights);
        memcpy(c, l->weight_active, l->n_weights);
        layer_resize(l, &p);
        CHK(l->n_inputs == nn && l->n_weights == nn * m && l->n_outputs == m, "resized to %d inputs: %d inputs, %d weights", nn, l->n_inputs, l->n_weights);
        int n = 0;
        for (int i = 0; i < m; ++i) {
            for (int j = 0; j < nn; ++j) {
                const int x = i * nn + j, y = i * ni + j;
                n += l->weight_active[x];
                if (j < ni) { CHK((!c[y] || (l->weight_active[x] && l->weights[x] == w[y])) && l->weight_updates[x] == u[y], "connection of neuron %d to input %d changed", i, j); }
                else { CHK(l->weight_active[x] && l->weight_updates[x] == 0, "connection of neuron %d to new input %d", i, j); }
                if (j < ni && !(l->options & LAYER_EVOLVE_CONNECT)) { CHK(l->weight_active[x] == c[y] && l->weights[x] == w[y], "connection of neuron %d to input %d changed", i, j); }
            }
        }
        CHK(n == l->n_active, "%d connections counted, %d active", l->n_active, n);
        CHK(eqd(b, l->biases, m), "biases changed");
        free(w); free(u); free(b); free(c);
        return;
    }
    layer_resize(l, &p);
    if (!IMAGE(l->type)) {
        CHK(l->n_inputs == p.n_outputs && l->n_outputs == p.n_outputs && l->max_outputs == p.n_outputs, "resized to %d: %d", p.n_outputs, l->n_outputs);
        CHK(l->out_w == p.out_w && l->out_h == p.out_h && l->out_c == p.out_c, "image after resizing kind %d", l->type);
    } else {
        const int k = l->type == MAXPOOL ? (p.out_w + l->pad - l->size) / l->stride + 1 : l->type == UPSAMPLE ? p.out_w * l->stride : 1;
        const int h = l->type == MAXPOOL ? (p.out_h + l->pad - l->size) / l->stride + 1 : l->type == UPSAMPLE ? p.out_h * l->stride : 1;
        CHK(l->n_inputs == p.n_outputs && l->height == p.out_h && l->width == p.out_w && l->channels == p.out_c && l->out_w == k && l->out_h == h && l->out_c == p.out_c && l->n_outputs == k * h * p.out_c &&
            l->max_outputs == l->n_outputs, "kind %d resized to %dx%dx%d (%d outputs)", l->type, l->out_w, l->out_h, l->out_c, l->n_outputs);
    }
}
int main(int argc, char **argv)
{
    start(argc, argv, "C28");
    while (more()) {
        struct ArgsLayer a;
        shape(&a, T[ri(0, 6)]);
        struct Layer *l = layer_init(&a);
        check_init(&a, l);
        CHK(layer_output(l) == l->output, "output array");
        fill(l);
        if (coin() && l->type != CONNECTED) { CHK(!layer_mutate(l), "a layer without weights reported a mutation"); }
        if (coin()) { check_resize(l); fill(l); }
        struct Layer *c = layer_copy(l);
        same(l, c, "copy");
        if (l->type == CONNECTED) {
            for (int i = 0; i < c->n_weights; ++i) { CHK(c->weight_updates[i] == 0, "copy starts with momentum"); }
            for (int i = 0; i < c->n_biases; ++i) { CHK(c->bias_updates[i] == 0, "copy starts with bias momentum"); }
        }
        fill(c);
        drop(c);
        FILE *f = tmpfile();
        if (f) {
            const size_t s = layer_save(l, f);
            const long end = ftell(f);
            rewind(f);
            struct Layer *r = malloc(sizeof(struct Layer));
            memset(r, 0xa5, sizeof *r);
            const size_t g = layer_load(r, f);
            CHK(s == g && ftell(f) == end, "wrote %zu items and read %zu", s, g);
            same(l, r, "load");
            if (l->type == CONNECTED) { CHK(eqd(l->weight_updates, r->weight_updates, l->n_weights) && eqd(l->bias_updates, r->bias_updates, l->n_biases), "load: momentum"); }
            fill(r);
            drop(r);
            fclose(f);
        }
        drop(l);
    }
    return finish();
}
