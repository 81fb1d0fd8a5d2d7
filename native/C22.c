#include "h.h"
/* Storing the population, going on, and retrieving it. */
#define MAXR 12
static double in0[4];

static char *text(struct XCSF *x, struct Cl *c)
{
    cl_predict(x, c, in0);
    const int rls = x->pred->type == PRED_TYPE_RLS_LINEAR || x->pred->type == PRED_TYPE_RLS_QUADRATIC;
    return cl_json_export(x, c, true, true, !rls);
}
static int texts(struct XCSF *x, struct Set *s, char **t)
{
    int n = 0;
    for (struct Clist *i = s->list; i != NULL; i = i->next) {
        CHK(n < MAXR * 2, "the set has more rules than were put in");
        t[n++] = text(x, i->cl);
    }
    CHK(n == s->size, "size account %d for %d rules", s->size, n);
    int num = 0;
    for (struct Clist *i = s->list; i != NULL; i = i->next) { num += i->cl->num; }
    CHK(num == s->num, "numerosity account %d for %d", s->num, num);
    return n;
}
static void drop(char **t, int n) { for (int i = 0; i < n; ++i) { free(t[i]); } }
static int cmp(const void *a, const void *b) { return strcmp(*(char **) a, *(char **) b); }
/* the same rules, in whatever order */
static void same(char **a, int n, char **b, int m, const char *what)
{
    CHK(n == m, "%s: %d rules instead of %d", what, m, n);
    char *p[MAXR * 2], *q[MAXR * 2];
    memcpy(p, a, sizeof(char *) * n);
    memcpy(q, b, sizeof(char *) * n);
    qsort(p, n, sizeof(char *), cmp);
    qsort(q, n, sizeof(char *), cmp);
    for (int i = 0; i < n; ++i) {
        if (strcmp(p[i], q[i])) { fail("%s: a rule differs: %.300s ... instead of %.300s", what, q[i], p[i]); }
    }
}
static void addrules(struct XCSF *x, int n)
{
    for (int i = 0; i < n; ++i) {
        struct Cl *c = newcl(x);
        c->num = ri(1, 5); c->exp = ri(0, 9); c->err = rd(0, 1); c->fit = rd(0, 1); c->age = ri(0, 9); c->mtotal = ri(0, 9); c->m = coin();
        c->size = rd(1, 9); c->time = ri(0, 20); c->action = ri(0, x->n_actions - 1);
        double y[3] = { rv(), rv(), rv() };
        for (int k = 0; k < 2; ++k) { cl_predict(x, c, in0); pred_update(x, c, in0, y); }
        clset_add(&x->pset, c);
    }
}
static void apartness(struct XCSF *x)
{
    for (struct Clist *i = x->pset.list; i != NULL; i = i->next) {
        for (struct Clist *j = x->prev_pset.list; j != NULL; j = j->next) {
            const struct Cl *a = i->cl, *b = j->cl;
            CHK(i != j && a != b, "the stored population shares a rule");
            CHK(a->prediction != b->prediction && (x->cond->type == COND_TYPE_DUMMY || a->cond != b->cond) && (x->pred->type == PRED_TYPE_CONSTANT || a->pred != b->pred) && a->act != b->act,
                "a stored rule shares storage with the population");
        }
    }
}
static void go_on(struct XCSF *x)
{
    for (struct Clist *i = x->pset.list; i != NULL; i = i->next) {
        struct Cl *c = i->cl;
        c->num = ri(1, 3); c->exp += ri(0, 2); c->err = rd(0, 1); c->fit = rd(0, 1); c->time += 5; c->size += 1; c->age += 1;
        double y[3] = { rv(), rv(), rv() }, in[4] = { rd(0, 1), rd(0, 1), rd(0, 1), rd(0, 1) };
        cl_predict(x, c, in); pred_update(x, c, in, y); cl_mutate(x, c);
    }
    if (coin()) {
        clset_kill(x, &x->pset);
        clset_init(&x->pset);
        addrules(x, ri(0, MAXR));
    } else {
        x->pset.num = 0;
        for (struct Clist *i = x->pset.list; i != NULL; i = i->next) { x->pset.num += i->cl->num; }
    }
}

int main(int argc, char **argv)
{
    start(argc, argv, "C22");
    quiet();
    while (more()) {
        leak_start();
        struct XCSF x;
        setup(&x, ri(1, 4), ri(1, 3), ri(1, 3));
        cond_param_set_type(&x, anycond());
        pred_param_set_type(&x, anypred());
        cond_param_set_bits(&x, ri(1, 2));
        for (int i = 0; i < 4; ++i) { in0[i] = rd(0, 1); }
        addrules(&x, ri(0, MAXR));
        char *t[MAXR * 2], *u[MAXR * 2];
        int n, m;
        if (coin()) {
            n = texts(&x, &x.pset, t);
            const struct Clist *l = x.pset.list;
            xcsf_retrieve_pset(&x);
            m = texts(&x, &x.pset, u);
            same(t, n, u, m, "retrieving when nothing was stored");
            CHK(l == x.pset.list && x.prev_pset.size == 0 && x.prev_pset.list == NULL, "retrieving when nothing was stored");
            drop(t, n); drop(u, m);
        }
        const int times = ri(1, 2);
        for (int k = 0; k < times; ++k) {
            if (k) { go_on(&x); }
            n = texts(&x, &x.pset, t);
            const int num = x.pset.num;
            xcsf_store_pset(&x);
            m = texts(&x, &x.pset, u);
            same(t, n, u, m, "storing changed the population");
            drop(u, m);
            m = texts(&x, &x.prev_pset, u);
            same(t, n, u, m, "stored population");
            CHK(x.prev_pset.num == num, "stored numerosity");
            drop(u, m);
            apartness(&x);
            if (k + 1 < times) { drop(t, n); }
        }
        go_on(&x);
        m = texts(&x, &x.prev_pset, u);
        same(t, n, u, m, "stored population after the learner went on");
        drop(u, m);
        const int before = x.pset.size;
        xcsf_retrieve_pset(&x);
        m = texts(&x, &x.pset, u);
        if (n > 0) { same(t, n, u, m, "retrieved population"); }
        else { CHK(x.pset.size == before, "an empty store replaced the population"); }
        CHK(x.prev_pset.size == 0 && x.prev_pset.num == 0 && x.prev_pset.list == NULL, "the store is not given up");
        drop(u, m);
        drop(t, n);
        go_on(&x);
        teardown(&x);
        leak_end();
    }
    return finish();
}
