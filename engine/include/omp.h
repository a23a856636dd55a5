// Minimal OpenMP declarations for the symbolic build: pragmas are ignored, one thread runs.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4] __attribute__((__aligned__(4))); } omp_lock_t;
int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_in_parallel(void);
void omp_set_num_threads(int); int omp_get_level(void); int omp_get_num_procs(void); int omp_get_nested(void); int omp_get_max_active_levels(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
double omp_get_wtime(void);
typedef enum omp_proc_bind_t { omp_proc_bind_false = 0 } omp_proc_bind_t; omp_proc_bind_t omp_get_proc_bind(void);
#ifdef __cplusplus
}
#endif
