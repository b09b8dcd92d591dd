#define _GNU_SOURCE
#include "jobs.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <sys/wait.h>
#include <vl/generic.h>
#include <vl/random.h>

static const Mod *pick(unsigned mask, unsigned avoid) { for (int t = 0; t < 200; t++) { const Mod *m = mod_draw(mask); if (!(m->flags & avoid)) return m; } return mod_draw(mask); }
void job_draw(Job *j, unsigned mask, unsigned avoid) {
  j->m = pick(mask, avoid); j->m->plan_obj(&j->op); j->m->plan_use(&j->op, &j->up);
  char b[64]; snprintf(b, sizeof b, "jobs.%s", j->m->name); sim_stat(b, 1);
}
u64 job_hash(const Job *j) { return hash_bytes(&j->up, sizeof j->up, hash_bytes(&j->op, sizeof j->op, hash_bytes(j->m->name, strlen(j->m->name), 5))); }
void job_log(const char *what, const Job *j) {
  if (!sim_tracing) return;
  char a[300], b[300]; int ka = 0, kb = 0;
  for (int i = 0; i < 10; i++) { ka += snprintf(a + ka, sizeof a - ka, " %d", j->op.i[i]); kb += snprintf(b + kb, sizeof b - kb, " %d", j->up.i[i]); }
  sim_log("%s: %s object(%llu%s) use(%llu%s; %g %g)", what, j->m->name, (unsigned long long)j->op.seed, a, (unsigned long long)j->up.seed, b, j->up.d[0], j->up.d[1]);
}
void job_run(const Job *j, Out *o) {
  paint_stack();
  void *obj = j->m->make(&j->op);
  paint_stack();
  j->m->use(obj, &j->op, &j->up, o);
  j->m->drop(obj);
}
int sim_cpu;
void cpu_draw(void) { static const char *const nm[] = {"this processor", "a processor without AVX", "a processor without vector instructions"}; sim_cpu = chance(SE, 1, 2) ? 1 + chance(SE, 1, 4) : 0; sim_log("on %s", nm[sim_cpu]); if (sim_cpu) sim_stat(sim_cpu == 1 ? "env.no AVX" : "env.no vector instructions", 1); }
vl_bool __real_vl_cpu_has_avx(void); vl_bool __real_vl_cpu_has_sse2(void); vl_bool __real_vl_cpu_has_sse3(void);
vl_bool __wrap_vl_cpu_has_avx(void) { return sim_cpu < 1 && __real_vl_cpu_has_avx(); }
vl_bool __wrap_vl_cpu_has_sse2(void) { return sim_cpu < 2 && __real_vl_cpu_has_sse2(); }
vl_bool __wrap_vl_cpu_has_sse3(void) { return sim_cpu < 2 && __real_vl_cpu_has_sse3(); }
void out_append_tag(Out *o, const char *label) { u8 z = 0; out_put(o, label, T_U8, &z, 1); }
static void wr_all(int fd, const void *p, size_t n) { const char *c = p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { if (errno == EINTR) continue; _exit(9); } c += k; n -= (size_t)k; } }
static int rd_all(int fd, void *p, size_t n) { char *c = p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return 0; } c += k; n -= (size_t)k; } return 1; }
void in_pristine(void (*fn)(void *, Out *), void *arg, Out *o) {
  int fd[2]; if (pipe(fd)) sim_harness_error("pipe");
  pid_t p = fork(); if (p < 0) sim_harness_error("fork");
  if (p == 0) { close(fd[0]); Out r; out_init(&r); fn(arg, &r); wr_all(fd[1], &r.n, sizeof r.n); wr_all(fd[1], &r.len, sizeof r.len); wr_all(fd[1], r.it, r.n * sizeof *r.it); wr_all(fd[1], r.buf, r.len); _exit(0); }
  close(fd[1]); size_t n, len; int ok = rd_all(fd[0], &n, sizeof n) && rd_all(fd[0], &len, sizeof len);
  if (ok) { o->it = realloc(o->it, (n + 1) * sizeof *o->it); o->cap = n + 1; o->buf = realloc(o->buf, len + 1); o->bcap = len + 1; o->n = n; o->len = len; ok = rd_all(fd[0], o->it, n * sizeof *o->it) && rd_all(fd[0], o->buf, len); }
  close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (ok && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st)) _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 44); /* its report stands */
  if (WIFSIGNALED(st)) { kill(getpid(), WTERMSIG(st)); sleep(1); }
  _exit(45);
}
void expect_same(const char *kind, const char *what, const Out *got, const Out *want, double rtol, double atol) {
  char m[400]; if (out_diff(got, want, rtol, atol, m, sizeof m)) sim_violation(kind, "%s: %s", what, m);
}
/* operations leave the settings of the library as they were */
static i64 settings[3];
static void settings_read(i64 *v) { v[0] = (i64)vl_get_simd_enabled(); v[1] = (i64)vl_get_max_threads(); v[2] = 0; }
void settings_mark(void) { settings_read(settings); }
void settings_check(const char *when) {
  i64 v[3]; settings_read(v);
  if (v[0] != settings[0]) sim_violation("settings", "%s: the use of vector instructions was %s and is %s", when, settings[0] ? "enabled" : "disabled", v[0] ? "enabled" : "disabled");
  if (v[1] != settings[1]) sim_violation("settings", "%s: the limit of threads was %lld and is %lld", when, (long long)settings[1], (long long)v[1]);
}
#ifndef SIM_B
int sim_lock_strict;
static void *lock_probe(void *a) { (void)a; vl_get_rand(); vl_set_last_error(0, 0); vl_get_max_threads(); return 0; }
void check_lock_free(const char *when) {
  pthread_t t; const char *volatile w = when; (void)w;
  sim_lock_strict = 1; if (pthread_create(&t, 0, lock_probe, 0)) sim_harness_error("pthread_create"); pthread_join(t, 0); sim_lock_strict = 0;
}
/* what the library's lock operations are renamed to in the single-threaded harness: nobody else runs, so having to wait means waiting for ever */
int sim_mutex_lock(pthread_mutex_t *m) {
  int e = pthread_mutex_trylock(m);
  if (e == EBUSY) { if (sim_lock_strict) sim_violation("lock-held", "the library's lock is still held: another thread would wait for ever"); return pthread_mutex_lock(m); }
  return e;
}
int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { (void)c; (void)m; sim_violation("lock-held", "the library's lock is still held: a thread waits for ever"); }
#endif
void check_all_released(const char *when, u64 mark) {
  char d[300];
  for (int own = OWN_RAW; own <= OWN_B; own++) if (mem_live_since(own, mark)) {
    mem_describe_live(own, mark, d, sizeof d);
    sim_violation("leak", "%s: %zu block(s) from %s not returned: %s", when, mem_live_since(own, mark), own == OWN_RAW ? "the C library" : "the configured memory functions", d);
  }
}
void rand_state(Out *o) { VlRand r = *vl_get_rand(); for (int i = 0; i < 3; i++) out_i(o, "next draw", vl_rand_uint32(&r)); }
void env_log(const char *what, const Env *e) { sim_log("%s: memory contents %d/%llu placement %d moves %d stack %d", what, e->fill, (unsigned long long)e->fillseed, e->pad, e->realloc_move, e->stack); }
