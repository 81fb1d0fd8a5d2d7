#include "h.h"
/* every loss is the stated function of prediction and target */
int main(int argc, char **argv)
{
    start(argc, argv, "C07");
    struct XCSF x;
    setup(&x, 1, 1, 1);
    while (more()) {
        const int n = ri(1, 6);
        x.y_dim = n;
        double p[8], y[8];
        const int cls = ri(0, 1);
        for (int i = 0; i < n; ++i) { p[i] = cls ? (ri(0, 4) ? rd(0, 1) : ri(0, 1)) : rv(); y[i] = cls ? ri(0, 1) : rv(); }
        x.HUBER_DELTA = ri(0, 8) * 0.25;
        double mae = 0, mse = 0, lg = 0, bl = 0, hu = 0;
        int am = 0;
        for (int i = 0; i < n; ++i) {
            const double a = fabs(y[i] - p[i]);
            mae += a / n;
            mse += a * a / n;
            lg -= y[i] * log(fmax(p[i], DBL_EPSILON));
            bl -= y[i] * log(fmax(p[i], DBL_EPSILON)) + (1 - y[i]) * log(fmax(1 - p[i], DBL_EPSILON));
            hu += (a > x.HUBER_DELTA ? x.HUBER_DELTA * a - x.HUBER_DELTA * x.HUBER_DELTA / 2 : a * a / 2) / n;
            if (p[i] > p[am]) { am = i; }
        }
        EQ(loss_mae(&x, p, y), mae, "mean absolute error");
        EQ(loss_mse(&x, p, y), mse, "mean squared error");
        EQ(loss_rmse(&x, p, y), sqrt(mse), "root mean squared error");
        EQ(loss_log(&x, p, y), lg, "log loss");
        EQ(loss_binary_log(&x, p, y), bl, "binary log loss");
        EQ(loss_huber(&x, p, y), hu, "huber loss");
        EQ(loss_onehot(&x, p, y), y[am] == 1 ? 0 : 1, "one-hot loss");
        static const int L[] = { LOSS_MAE, LOSS_MSE, LOSS_RMSE, LOSS_LOG, LOSS_BINARY_LOG, LOSS_ONEHOT, LOSS_HUBER };
        const double E[] = { mae, mse, sqrt(mse), lg, bl, y[am] == 1 ? 0 : 1, hu };
        const int k = ri(0, 6);
        x.LOSS_FUNC = L[k];
        CHK(loss_set_func(&x) == L[k], "selecting loss %d", L[k]);
        EQ((x.loss_ptr)(&x, p, y), E[k], "selected loss");
        x.LOSS_FUNC = 99;
        CHK(loss_set_func(&x) == LOSS_INVALID, "an unknown loss was accepted");
    }
    return finish();
}
