/* minimal omp.h for analysis (gcc's uses attributes clang does not know) */
#ifndef FX_OMP_H
#define FX_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4]; } omp_lock_t;
typedef struct { unsigned char _x[16]; } omp_nest_lock_t;
void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *); int omp_test_lock(omp_lock_t *);
void omp_init_nest_lock(omp_nest_lock_t *); void omp_destroy_nest_lock(omp_nest_lock_t *); void omp_set_nest_lock(omp_nest_lock_t *); void omp_unset_nest_lock(omp_nest_lock_t *); int omp_test_nest_lock(omp_nest_lock_t *);
int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_get_max_threads(void); int omp_get_num_procs(void); int omp_in_parallel(void); void omp_set_num_threads(int); double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
