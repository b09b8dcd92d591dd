/* Shared by the property drivers: jobs (create, use, delete one object), references computed in a pristine process. */
#ifndef JOBS_H
#define JOBS_H
#include "mods.h"
typedef struct { const Mod *m; Plan op, up; } Job;
void job_draw(Job *j, unsigned mask, unsigned avoid);
void job_run(const Job *j, Out *o);                 /* create, use, delete */
u64 job_hash(const Job *j);
void job_log(const char *what, const Job *j);
/* runs fn in a process of its own forked now, returns the outputs it produced */
void in_pristine(void (*fn)(void *arg, Out *o), void *arg, Out *o);
/* the processor the library finds: 0 this one, 1 without AVX, 2 without any vector instructions; drawn once in a run */
extern int sim_cpu; void cpu_draw(void);
void out_append_tag(Out *o, const char *label);
void expect_same(const char *kind, const char *what, const Out *got, const Out *want, double rtol, double atol);
/* threads other than the caller's can take the library's lock */
void check_lock_free(const char *when);
void settings_mark(void); void settings_check(const char *when);
void check_all_released(const char *when, u64 mark);
void rand_state(Out *o);                            /* next draw of this thread's generator */
void env_log(const char *what, const Env *e);
#endif
