/* Minimal OpenMP API declarations: the sandbox has no libomp header for clang,
   and gcc's omp.h does not parse with clang.  Only analysed, never linked. */
#ifndef LSLSA_OMP_H
#define LSLSA_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct omp_lock_t { void *p; } omp_lock_t;
typedef struct omp_nest_lock_t { void *p; } omp_nest_lock_t;
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
void omp_init_nest_lock(omp_nest_lock_t *);
void omp_destroy_nest_lock(omp_nest_lock_t *);
void omp_set_nest_lock(omp_nest_lock_t *);
void omp_unset_nest_lock(omp_nest_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
