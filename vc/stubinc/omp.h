#ifndef STUB_OMP
#define STUB_OMP
int omp_get_thread_num(void);
int omp_get_max_threads(void);
#endif
