/* Minimal stand-in for omp.h (the one installed belongs to gcc and does not parse with clang). */
#ifndef VERIF_STUB_OMP_H
#define VERIF_STUB_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct omp_lock_t { int opaque; } omp_lock_t;
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
void omp_set_dynamic(int);
void omp_set_num_threads(int);
void omp_set_nested(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
