/* minimal stand-in used only for parsing: clang has no omp.h in this image */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
int omp_in_parallel(void);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_set_dynamic(int);
void omp_set_nested(int);
int omp_get_thread_limit(void);
int omp_get_level(void);
typedef struct { void *_lk; } omp_lock_t;
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
