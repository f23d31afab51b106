#ifndef OMP_H
#define OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
int omp_in_parallel(void);
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
int omp_get_level(void);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
int omp_test_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
