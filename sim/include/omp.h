#pragma once
static inline int omp_get_max_threads() { return 1; }
static inline int omp_get_num_threads() { return 1; }
static inline int omp_get_thread_num() { return 0; }
static inline void omp_set_num_threads(int) {}
static inline int omp_in_parallel() { return 0; }
