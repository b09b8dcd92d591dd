/* Simulated threads: one real thread runs at a time, a seeded scheduler hands over at accesses and synchronisation. */
#ifndef SCHED_H
#define SCHED_H
#include "sim.h"
#define MAXT 12
void sched_begin(u64 expected_steps);      /* draws the policy of this run */
int sched_spawn(void (*fn)(void *), void *arg);
void sched_join(int id);
void sched_end(void);                      /* ends the idle workers of the main thread */
int sched_self(void);
void sched_point(void);                    /* something other threads may be scheduled before */
void sched_freed(const void *p, size_t n); /* the block's memory is released */
void sched_learn_settings(void);           /* process-wide settings may be changed while others read them */
void sched_reset_steps(void);
extern u64 sched_steps, sched_switches;    /* accesses and synchronisations of simulated threads; hand-overs */
extern u64 sched_order;                    /* hash of the order of hand-overs */
extern int sched_serial;                   /* run threads one after the other (references) */
extern int omp_host_changed;
extern int sched_races_on;                 /* report conflicting accesses */
extern int omp_sim_max, omp_sim_limit, omp_max_used; /* the host program's setting; largest team asked for */
extern int omp_smaller;                    /* teams may be smaller than asked for */
#endif
