#include "nn.h"
/* what the layers without weights compute, and the errors they pass back */
static const int T[] = { DROPOUT, NOISE, SOFTMAX, MAXPOOL, AVGPOOL, UPSAMPLE };
int main(int argc, char **argv)
{
    start(argc, argv, "C29");
    while (more()) {
        struct ArgsLayer a;
        args(&a, T[ri(0, 5)]);
        a.height = ri(1, 5); a.width = ri(1, 5); a.channels = ri(1, 3);
        a.n_inputs = a.n_init = a.height * a.width * a.channels;
        a.stride = ri(1, 3);
        a.size = ri(1, (a.height < a.width ? a.height : a.width));
        a.pad = ri(0, 2 * a.size - 2); /* every window meets the image */
        struct Layer *l = layer_init(&a);
        struct Net net;
        memset(&net, 0, sizeof net);
        net.train = coin();
        const int n = l->n_inputs, m = l->n_outputs, w = a.width, h = a.height, c = a.channels;
        double *x = malloc(sizeof(double) * (n + 2)), *d = malloc(sizeof(double) * (n + 2)), *e = calloc(n, sizeof(double));
        const double shift = ri(0, 3) ? 0 : rd(-400, 400);
        for (int i = 0; i < n + 2; ++i) { x[i] = ri(0, 2) ? shift + rd(-3, 3) : grid(); d[i] = rd(-2, 2); }
        double *d0 = dupd(d, n + 2), *x0 = dupd(x, n + 2);
        const bool drp = a.type == DROPOUT, noi = a.type == NOISE;
        if ((drp || noi)) { for (int i = 0; i < n; ++i) { l->state[i] = rd(0, 1); } }
        layer_forward(l, &net, x);
        for (int i = 0; i < m; ++i) { l->delta[i] = rd(-2, 2); }
        int hit = 0;
        if (drp || noi) {
            for (int i = 0; i < n; ++i) {
                const bool b = l->state[i] < l->probability;
                hit += b;
                if (!net.train || (noi && !b)) { CHK(l->output[i] == x[i], "kind %d does not pass input %d on", a.type, i); }
                else if (drp) { CHK(b ? l->output[i] == 0 : near(l->output[i], x[i] / (1 - a.probability)), "unit %d: %g from %g", i, l->output[i], x[i]); }
                e[i] = drp ? b ? -d0[i] : l->delta[i] / (1 - a.probability) : l->delta[i];
            }
        } else if (a.type == SOFTMAX) {
            double mx = x[0] / a.scale, s = 0;
            for (int i = 0; i < n; ++i) { mx = fmax(mx, x[i] / a.scale); }
            for (int i = 0; i < n; ++i) { s += exp(x[i] / a.scale - mx); }
            for (int i = 0; i < n; ++i) { CHK(near(l->output[i], exp(x[i] / a.scale - mx) / s), "output %d is %g, not %g", i, l->output[i], exp(x[i] / a.scale - mx) / s); e[i] = l->delta[i]; }
        } else if (a.type == AVGPOOL) {
            for (int k = 0; k < c; ++k) {
                double s = 0;
                for (int i = 0; i < w * h; ++i) { s += x[k * w * h + i]; e[k * w * h + i] = l->delta[k] / (w * h); }
                CHK(fabs(l->output[k] - s / (w * h)) < 1e-9 * (1 + fabs(s)), "plane %d: %g, not %g", k, l->output[k], s / (w * h));
            }
        } else if (a.type == UPSAMPLE) {
            const int s = a.stride;
            for (int k = 0; k < c; ++k) { for (int j = 0; j < h * s; ++j) { for (int i = 0; i < w * s; ++i) {
                const int in = k * w * h + (j / s) * w + i / s, o = k * w * h * s * s + j * w * s + i;
                CHK(l->output[o] == x[in], "output %d does not repeat input %d", o, in);
                e[in] += l->delta[o];
            } } }
        } else {
            const int off = -(a.pad / 2);
            for (int k = 0; k < c; ++k) { for (int j = 0; j < l->out_h; ++j) { for (int i = 0; i < l->out_w; ++i) {
                double best = -DBL_MAX;
                int at = -1;
                for (int y = 0; y < a.size; ++y) { for (int z = 0; z < a.size; ++z) {
                    const int r = off + j * a.stride + y, q = off + i * a.stride + z;
                    if (r < 0 || q < 0 || r >= h || q >= w) { continue; }
                    if (x[q + w * (r + h * k)] > best) { best = x[q + w * (r + h * k)]; at = q + w * (r + h * k); }
                } }
                const int o = i + l->out_w * (j + l->out_h * k);
                CHK(at < 0 || l->output[o] == best, "output %d is %g, not %g", o, l->output[o], best);
                if (at >= 0) { e[at] += l->delta[o]; }
                hit += at < 0;
            } } }
        }
        CHK(!memcmp(x, x0, sizeof(double) * (n + 2)), "input changed");
        if (a.type != MAXPOOL || !hit) {
            layer_backward(l, &net, x, d);
            for (int i = 0; i < n; ++i) { CHK(fabs(d[i] - d0[i] - e[i]) < 1e-9 * (1 + fabs(e[i])), "kind %d passes %g back to input %d, not %g", a.type, d[i] - d0[i], i, e[i]); }
            CHK(d[n] == d0[n] && d[n + 1] == d0[n + 1], "errors beyond the input changed");
            layer_backward(l, &net, x, NULL);
        }
        free(x); free(x0); free(d); free(d0); free(e);
        drop(l);
    }
    return finish();
}
