exec(open('/tmp/mkd.py').read())
seed('s22_store_kept','C22','storing, retrieving, and then storing or retrieving once more','after a retrieval the store still refers to the rules that are now the population, so the next store or retrieval releases rules that are in use',
 [("xcsf/xcsf.c","    xcsf->pset = xcsf->prev_pset;\n    clset_init(&xcsf->prev_pset);\n","    xcsf->pset = xcsf->prev_pset;\n    xcsf->prev_pset.num = 0;\n")],
 H+'''
int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    for (int i = 0; i < 3; ++i) { clset_add(&x.pset, nc(&x)); }
    xcsf_store_pset(&x);
    xcsf_retrieve_pset(&x);
    return !(x.pset.size == 3 && x.prev_pset.size == 0 && x.prev_pset.list == NULL);
}
''')
seed('s22_copy_matches','C22','a rule that has matched some but not all of the inputs it has seen when the population is stored','a stored rule forgets how many inputs it has matched',
 [("xcsf/cl.c","    dest->age = src->age;\n    dest->mtotal = src->mtotal;","    dest->age = src->age;\n    dest->mtotal = src->m ? src->mtotal : 0;")],
 H+'''
int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    struct Cl *c = nc(&x);
    c->age = 9;
    c->mtotal = 4;
    c->m = false;
    clset_add(&x.pset, c);
    xcsf_store_pset(&x);
    return !(x.prev_pset.list->cl->mtotal == 4 && x.prev_pset.list->cl->age == 9);
}
''')
seed('s23_store_leak','C23','a system that is released while a population is stored','the rules of the stored population are never released',
 [("xcsf/xcsf.c","    clset_kill(xcsf, &xcsf->pset);\n    clset_kill(xcsf, &xcsf->prev_pset);\n    pa_free(xcsf);","    clset_kill(xcsf, &xcsf->pset);\n    clset_free(&xcsf->prev_pset);\n    pa_free(xcsf);")],
 H+'''#include <malloc.h>
static void once(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    for (int i = 0; i < 50; ++i) { clset_add(&x.pset, nc(&x)); }
    xcsf_store_pset(&x);
    xcsf_free(&x);
    param_free(&x);
}
int main(void)
{
    once();
    once();
    const size_t a = mallinfo2().uordblks;
    once();
    once();
    return mallinfo2().uordblks > a + 2000;
}
''')
seed('s24_least_error','C24','no rule below the target error and several experienced rules with different errors','the fraction reported is that of the last experienced rule, not of the one of least error',
 [("xcsf/clset.c","                mfrac = cl_mfrac(xcsf, iter->cl);\n                error = e;\n","                mfrac = cl_mfrac(xcsf, iter->cl);\n                error = fmax(e, error);\n")],
 H+'''
int main(void)
{
    struct XCSF x;
    mk(&x, 2, 1, 2);
    x.E0 = 0.01;
    for (int i = 0; i < 3; ++i) {
        struct Cl *c = nc(&x);
        c->exp = 1000;
        c->age = 10;
        c->mtotal = 2 + i;
        c->err = 0.5 - 0.1 * i;
        clset_add(&x.pset, c);
    }
    return fabs(clset_mfrac(&x) - 0.4) > 1e-9;
}
''')
