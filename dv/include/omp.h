/* declarations only (clang's own omp.h is not installed here) */
#pragma once
extern void omp_set_num_threads(int);
extern int omp_get_max_threads(void);
extern int omp_get_thread_num(void);
