#include "h.h"
#include "env_maze.h"
#include "env_mux.h"
#include <sys/wait.h>
/* multiplexer and maze environments */
static void mux(void)
{
    struct XCSF x;
    memset(&x, 0, sizeof(x));
    const int bits = ri(3, 80);
    int k = 1;
    while (k + 1 + (1 << (k + 1)) <= bits) { ++k; }
    env_mux_init(&x, bits);
    CHK(x.x_dim == k + (1 << k) && x.n_actions == 2 && x.y_dim == 1, "%d bits give %d inputs, expected %d", bits, x.x_dim, k + (1 << k));
    struct EnvMux *e = x.env;
    for (int r = 0; r < 50; ++r) {
        double *s = (double *) env_mux_get_state(&x);
        for (int i = 0; i < x.x_dim; ++i) { CHK(s[i] >= 0 && s[i] <= 1, "state %g", s[i]); }
        for (int i = 0; i < x.x_dim; ++i) { if (coin()) { e->state[i] = ri(0, 4) * 0.25; } }
        int a = 0;
        for (int i = 0; i < k; ++i) { a = 2 * a + (e->state[i] > 0.5); }
        const int want = e->state[k + a] > 0.5;
        for (int act = 0; act < 2; ++act) {
            const double p = env_mux_execute(&x, act);
            CHK(p == (act == want ? 1 : 0), "payoff %g for action %d, the addressed bit is %d", p, act, want);
        }
        CHK(env_mux_is_done(&x) && !env_mux_multistep(&x) && env_mux_maxpayoff(&x) == 1, "single step");
    }
    env_mux_free(&x);
    param_free(&x);
}
static const int DX[] = { 0, 1, 1, 1, 0, -1, -1, -1 }, DY[] = { -1, -1, 0, 1, 1, 1, 0, -1 };
static double sens(char c) { return c == '*' ? 0.1 : c == 'O' ? 0.3 : c == 'G' ? 0.5 : c == 'F' ? 0.7 : 0.9; }
static void maze(void)
{
    const int w = ri(0, 3) ? ri(1, 8) : 50, h = ri(0, 3) ? ri(1, 8) : 50;
    char m[50][50];
    for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { m[i][j] = "***OQFG"[ri(0, 6)]; } }
    m[ri(0, h - 1)][ri(0, w - 1)] = '*';
    char fn[] = "mazeXXXXXX";
    const int fd = mkstemp(fn);
    FILE *f = fdopen(fd, "w");
    for (int i = 0; i < h; ++i) { fwrite(m[i], 1, w, f); fputc('\n', f); }
    fclose(f);
    struct XCSF x;
    memset(&x, 0, sizeof(x));
    env_maze_init(&x, fn);
    unlink(fn);
    struct EnvMaze *e = x.env;
    CHK(x.x_dim == 8 && x.n_actions == 8 && x.y_dim == 1 && e->xsize == w && e->ysize == h, "maze of %d by %d read as %d by %d", w, h, e->xsize, e->ysize);
    for (int i = 0; i < h; ++i) { CHK(!memcmp(m[i], e->maze[i], w), "row %d", i); }
    for (int r = 0; r < 5; ++r) {
        env_maze_reset(&x);
        int px = e->xpos, py = e->ypos;
        CHK(px >= 0 && px < w && py >= 0 && py < h && m[py][px] == '*' && !env_maze_is_done(&x), "start at (%d,%d)", px, py);
        for (int t = 0; t < 30; ++t) {
            const double *s = env_maze_get_state(&x);
            int n = 0;
            for (int dy = -1; dy < 2; ++dy) {
                for (int dx = -1; dx < 2; ++dx) {
                    if (dx || dy) { CHK(s[n] == sens(m[(py + dy + h) % h][(px + dx + w) % w]), "sensor %d", n); ++n; }
                }
            }
            const int a = ri(0, 7), nx = (px + DX[a] + w) % w, ny = (py + DY[a] + h) % h;
            const char c = m[ny][nx];
            const int food = c == 'F' || c == 'G';
            const int was = env_maze_is_done(&x);
            const double p = env_maze_execute(&x, a);
            if (c == '*' || food) { px = nx; py = ny; }
            CHK(e->xpos == px && e->ypos == py, "moving %d into '%c' ends at (%d,%d), expected (%d,%d)", a, c, e->xpos, e->ypos, px, py);
            CHK(p == food, "payoff %g for moving into '%c'", p, c);
            CHK(env_maze_is_done(&x) == (food || was), "finished is %d after moving into '%c'", env_maze_is_done(&x), c);
            if (food) { break; }
        }
    }
    CHK(env_maze_multistep(&x) && env_maze_maxpayoff(&x) == 1, "multi step");
    env_maze_free(&x);
    param_free(&x);
}
/* a file larger than the maximum must be refused, not written past the maze */
static void big(int w, int h, int nl)
{
    char fn[] = "mazeXXXXXX";
    const int fd = mkstemp(fn);
    FILE *f = fdopen(fd, "w");
    for (int i = 0; i < h; ++i) { for (int j = 0; j < w; ++j) { fputc('*', f); } if (i < h - 1 || nl) { fputc('\n', f); } }
    fclose(f);
    fflush(stdout);
    const pid_t p = fork();
    if (p == 0) {
        if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) { _exit(3); }
        struct XCSF x;
        memset(&x, 0, sizeof(x));
        env_maze_init(&x, fn);
        _exit(7);
    }
    int st = 0;
    waitpid(p, &st, 0);
    unlink(fn);
    CHK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE, "a maze of %d by %d%s is not refused (status %d)", w, h, nl ? "" : " without final newline", st);
}
int main(int argc, char **argv)
{
    start(argc, argv, "C17");
    big(51, 3, 1);
    big(3, 51, 1);
    big(3, 51, 0);
    big(50, 51, 0);
    while (more()) {
        if (coin()) { mux(); } else { maze(); }
    }
    return finish();
}
