/* Threads: distinct objects (C05), per-thread state (C06), parallel regions (C07), concurrent searchers (C08). */
#include "jobs.h"
#include "vfs.h"
#include "threads_sim.h"
#include "props_kd.h"
#include "mt.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/generic.h>
#include <vl/random.h>
extern int sim_ready; extern long sim_clock_last[16];

void sim_child_setup(void) {
  vfs_reset(); Env e; env_default(&e); env_use(&e);
  sim_clock_mode = 0; sim_clock_reset(1); omp_sim_max = 3; sim_budget = 400000000ULL;
  mem_use_allocator(OWN_A); vl_set_printf_func(sim_printf); vl_set_num_threads(1); sched_learn_settings();
  vl_get_rand(); /* the calling thread's context exists from here */
  sim_ready = 1;
}

/* ---------------------------------------------------------------- C05 */
#define NT 4
typedef struct { Job j[3]; int n; u64 seed; int pre; Out o; } Hist; /* what one thread does */
static Hist hs[NT];
static void hist_run(void *a) {
  Hist *h = a; if (h->pre) vl_rand_seed(vl_get_rand(), (vl_uint32)(h->seed * 2654435761u));
  for (int i = 0; i < h->n; i++) { out_append_tag(&h->o, "job"); job_run(&h->j[i], &h->o); rand_state(&h->o); out_i(&h->o, "error", vl_get_last_error()); }
}
static void hist_alone(void *a, Out *o) {
  Hist *h = a; sched_serial = 1; sched_begin(0); out_clear(&h->o); sched_join(sched_spawn(hist_run, h)); sched_end();
  out_i(o, "steps", (i64)sched_steps); for (size_t i = 0; i < h->o.n; i++) out_put(o, h->o.it[i].label, h->o.it[i].type, h->o.buf + h->o.it[i].off, h->o.it[i].n);
}
static void drop_first(Out *o) { memmove(o->it, o->it + 1, (o->n - 1) * sizeof *o->it); o->n--; }
static void run_C05(void) {
  int n = 2 + (int)ch(SW, 2), id[NT], same = (int)ch(SW, 3); const Mod *fm = same ? mod_draw(0) : 0; Env e; env_draw(&e); env_use(&e); u64 mark = mem_mark(), total = 0; static Out ref[NT];
  for (int i = 0; i < n; i++) {
    Hist *h = hs + i; h->n = 1 + (int)ch(SW, 2); h->seed = ch(SW, 1 << 20); h->pre = (int)ch(SW, 2);
    for (int k = 0; k < h->n; k++) { Job *j = h->j + k; if (fm && (same == 1 || ch(SW, 2))) { j->m = fm; fm->plan_obj(&j->op); fm->plan_use(&j->op, &j->up); char b[64]; snprintf(b, sizeof b, "jobs.%s", fm->name); sim_stat(b, 1); } else job_draw(j, 0, 0); char w[20]; snprintf(w, sizeof w, "thread %d", i + 1); job_log(w, j); sim_event(job_hash(j)); }
  }
  for (int i = 0; i < n; i++) { out_init(&ref[i]); in_pristine(hist_alone, hs + i, &ref[i]); i64 st; memcpy(&st, ref[i].buf + ref[i].it[0].off, 8); total += (u64)st; drop_first(&ref[i]); }
  sched_begin(total); for (int i = 0; i < n; i++) id[i] = sched_spawn(hist_run, hs + i);
  for (int i = 0; i < n; i++) sched_join(id[i]);
  sched_end(); sim_log("%llu steps, %llu hand-overs", (unsigned long long)sched_steps, (unsigned long long)sched_switches); if (sched_switches > (u64)(2 * n)) sim_nontrivial();
  for (int i = 0; i < n; i++) { char w[80]; snprintf(w, sizeof w, "thread %d (%s%s) against the same work alone", i + 1, hs[i].j[0].m->name, hs[i].n > 1 ? ", .." : ""); expect_same("interference", w, &hs[i].o, &ref[i], 0, 0); }
  check_all_released("after all threads ended", mark);
}

/* ---------------------------------------------------------------- C06 */
typedef struct { int act; u64 a, b; } Step6;
typedef struct { Step6 s[12]; int n, child, ended; int me; } Script;
static Script sc[8]; static int nsc, live6; static VlRand *rand_of[8];
static void script_run(void *a) {
  Script *s = a; int err = 0, ticked = 0, kid = -1; char msg[300] = ""; long mark = 0; Mt g; mt_seed(&g, 5489); const char *w = "thread"; VlRand *mine = 0; live6++;
  for (int i = 0; i < s->n; i++) {
    Step6 *t = s->s + i;
    switch (t->act) {
      case 0: { int k = vl_set_last_error((int)t->a, "number %d of %s", (int)t->b, w); err = (int)t->a; snprintf(msg, sizeof msg, "number %d of %s", (int)t->b, w); if (k != err) sim_violation("error", "vl_set_last_error() returned %d, not the error %d", k, err); break; }
      case 1: vl_set_last_error((int)t->a, 0); err = (int)t->a; msg[0] = 0; break;
      case 2: { char big[700]; int n = 100 + (int)(t->b % 500); memset(big, 'a' + s->me, (size_t)n); big[n] = 0; vl_set_last_error((int)t->a, "%s", big); err = (int)t->a; big[VL_ERR_MSG_LEN - 1] = 0; snprintf(msg, sizeof msg, "%.*s", (int)sizeof msg - 1, big); break; }
      case 3: case 4: { int k = vl_get_last_error(); if (k != err) sim_violation("error", "thread script %d sees error %d, but it set %d last", s->me, k, err); const char *m = vl_get_last_error_message(); if (strncmp(m, msg, sizeof msg - 1)) sim_violation("error", "thread script %d sees the message \"%.60s\", but it set \"%.60s\" last", s->me, m, msg); break; }
      case 5: case 6: for (u64 k = 0; k <= t->a % 4; k++) { u32 v = vl_rand_uint32(vl_get_rand()), x = mt_next(&g); if (v != x) sim_violation("random", "thread script %d drew %u, its own stream continues with %u", s->me, v, x); } break;
      case 7: vl_rand_seed(vl_get_rand(), (u32)t->a); mt_seed(&g, (u32)t->a); break;
      case 8: vl_tic(); mark = sim_clock_last[sched_self()]; ticked = 1; break;
      case 9: { double d = vl_toc(), x = (double)(sim_clock_last[sched_self()] - (ticked ? mark : 0)) / 1e6; if (!(fabs(d - x) < 1e-9 + 1e-12 * fabs(x))) sim_violation("timer", "thread script %d: %.9g s since its tic, computed %.9g s", s->me, d, x); break; }
      case 10: switch (t->a % 4) { case 0: vl_set_simd_enabled((vl_bool)(t->b & 1)); break; case 1: vl_set_num_threads(1 + t->b % 3); break; case 2: vl_set_printf_func(sim_printf); break; default: { int v = (int)vl_get_max_threads(); if (v < 1 || v > 3) sim_violation("setting", "limit of threads %d", v); (void)vl_get_simd_enabled(); (void)vl_get_num_cpus(); } } break;
      case 11: { VlRand *r = vl_get_rand(); if (mine && r != mine) sim_violation("context", "the thread's generator moved"); mine = r; for (int k = 0; k < 8; k++) if (k != s->me && rand_of[k] == r) sim_violation("context", "two running threads share a generator"); rand_of[s->me] = r; break; }
      case 12: if (s->child >= 0 && kid < 0 && live6 < 6) { kid = sched_spawn(script_run, sc + s->child); } break;
      case 13: if (kid >= 0) { sched_join(kid); kid = -1; s->child = -1; } break;
    }
  }
  if (kid >= 0) sched_join(kid);
  rand_of[s->me] = 0; s->ended = 1; live6--;
}
static void run_C06(void) {
  int n = 2 + (int)ch(SW, 3), id[4]; Env e; env_draw(&e); env_use(&e); sim_clock_mode = (int)ch(SE, 6); sim_clock_reset(ch(SE, 1000)); u64 mark = mem_mark(); memset(sc, 0, sizeof sc); nsc = 2 * n; live6 = 0; memset(rand_of, 0, sizeof rand_of);
  for (int i = 0; i < nsc; i++) { Script *s = sc + i; s->me = i; s->child = i < n ? n + i : -1; s->n = (int)ch(SW, 12); sim_log("script %d:", i); for (int k = 0; k < s->n; k++) { s->s[k].act = (int)ch(SW, 14); s->s[k].a = ch(SW, 1 << 16); s->s[k].b = ch(SW, 1 << 10); sim_log("  %d(%llu, %llu)", s->s[k].act, (unsigned long long)s->s[k].a, (unsigned long long)s->s[k].b); sim_event(hash_bytes(&s->s[k], sizeof s->s[k], 1)); } }
  sched_begin(40 + 60 * (u64)nsc); Script m0; /* main takes part, too */ int with_main = (int)ch(SW, 2); int waves = 1 + (int)ch(SW, 3), k = 0;
  for (int w = 0; w < waves; w++) { int lo = k, hi = w == waves - 1 ? n : k + (int)ch(SW, (u64)(n - k + 1)); for (int i = lo; i < hi; i++) id[i] = sched_spawn(script_run, sc + i);
    if (with_main && w == 0) { memset(&m0, 0, sizeof m0); vl_set_last_error(0, 0); vl_rand_seed(vl_get_rand(), 5489); vl_tic(); for (int q = 0; q < 3; q++) { vl_set_last_error(7 + q, "main %d", q); if (vl_get_last_error() != 7 + q) sim_violation("error", "the main thread sees error %d instead of %d", vl_get_last_error(), 7 + q); char b[20]; snprintf(b, sizeof b, "main %d", q); if (strcmp(vl_get_last_error_message(), b)) sim_violation("error", "the main thread sees the message \"%.60s\"", vl_get_last_error_message()); } }
    for (int i = lo; i < hi; i++) { sched_join(id[i]); if (!sc[i].ended) sim_harness_error("script did not end"); }
    k = hi; }
  sched_end(); vl_set_num_threads(1); vl_set_simd_enabled(1); sim_nontrivial(); sim_log("%llu steps, %llu hand-overs", (unsigned long long)sched_steps, (unsigned long long)sched_switches);
  check_all_released("after all threads ended", mark);
}

/* ---------------------------------------------------------------- C07 */
typedef struct { Job j[2]; int n, nt[2]; Out o; } Par;
static void par_run(Par *p, Out *o, int nt) { for (int i = 0; i < p->n; i++) { int k = nt ? nt : p->nt[i]; vl_set_num_threads((vl_size)k); omp_max_used = 0; vl_rand_seed(vl_get_rand(), 7 + (u32)i); out_append_tag(o, "job"); job_run(&p->j[i], o); if (omp_max_used > k) sim_violation("limit", "%s asked for %d threads with a limit of %d", p->j[i].m->name, omp_max_used, k); } }
static void par_alone(void *a, Out *o) { Par *p = a; sched_serial = 1; sched_begin(0); Out r; out_init(&r); par_run(p, &r, 1); sched_end(); out_i(o, "steps", (i64)sched_steps); for (size_t i = 0; i < r.n; i++) out_put(o, r.it[i].label, r.it[i].type, r.buf + r.it[i].off, r.it[i].n); }
static void run_C07(void) {
  static Par p; Env e; env_draw(&e); env_use(&e); u64 mark = mem_mark(); memset(&p, 0, sizeof p); p.n = 1 + (int)ch(SW, 2); omp_sim_max = 1 + (int)ch(SW, 6); int host = omp_sim_max;
  for (int i = 0; i < p.n; i++) {
    Job *j = &p.j[i]; job_draw(j, M_OMP, 0); p.nt[i] = 1 + (int)ch(SW, 6);
    if (!strcmp(j->m->name, "kmeans") || !strcmp(j->m->name, "gmm")) { int *kind = j->m->name[0] == 'k' ? &j->up.i[3] : &j->up.i[4]; j->op.i[0] = 1; if (*kind & 1) *kind = 0; if (j->m->name[0] == 'k') j->up.i[6] = 1; else j->up.i[2] = 1; }
    if (!strcmp(j->m->name, "kdtree")) { j->op.i[6] = 1; j->up.i[3] = 1; }
    char w[30]; snprintf(w, sizeof w, "with %d threads", p.nt[i]); job_log(w, j); sim_event(job_hash(j) + (u64)p.nt[i]);
  }
  Out ref; out_init(&ref); in_pristine(par_alone, &p, &ref); i64 st; memcpy(&st, ref.buf + ref.it[0].off, 8); drop_first(&ref);
  sched_begin((u64)st); out_init(&p.o); omp_host_changed = 0; par_run(&p, &p.o, 0); sched_end(); vl_set_num_threads(1); sim_log("%llu steps, %llu hand-overs", (unsigned long long)sched_steps, (unsigned long long)sched_switches); if (sched_switches) sim_nontrivial();
  if (omp_host_changed || omp_sim_max != host) sim_violation("host", "the host program's limit of threads was changed");
  char w[80]; snprintf(w, sizeof w, "%s%s with %d threads against one thread", p.j[0].m->name, p.n > 1 ? ", .." : "", p.nt[0]); expect_same("parallel", w, &p.o, &ref, 1e-4, 1e-6);
  check_all_released("after the operations", mark);
}

/* ---------------------------------------------------------------- C08 */
static Kdx kd; static int kd_lim;
typedef struct { VlKDForestSearcher *se; int n, m, batch; u64 seed; } Sea;
static Sea sea[NT];
static void sea_run(void *a) {
  Sea *s = a; Ins in = {0}; size_t es = kd.isd ? 8 : 4; char w[60]; void *q = kdx_queries(&kd, &in, s->seed, s->n, 0); in_seal(&in);
  if (s->batch) { vl_uint32 *ix = in_out(&in, 4 * (size_t)(s->m * s->n), 4); void *d = in_out(&in, es * (size_t)(s->m * s->n), es); i64 c = (i64)vl_kdforest_query_with_array(kd.f, ix, (vl_size)s->m, (vl_size)s->n, d, q); kdx_check_batch(&kd, q, s->n, s->m, ix, d, kd_lim, c); in_end(&in); return; }
  VlKDForestNeighbor *nb = in_out(&in, sizeof *nb * (size_t)s->m, 8);
  for (int i = 0; i < s->n; i++) { void *qi = (char *)q + es * (size_t)kd.D * (size_t)i; i64 c = (i64)vl_kdforestsearcher_query(s->se, nb, (vl_size)s->m, qi); snprintf(w, sizeof w, "thread %d, query %d", (int)(s - sea) + 1, i); kdx_check_nb(&kd, w, qi, s->m, nb, kd_lim, c); }
  in_end(&in);
}
static void run_C08(void) {
  Env e; env_draw(&e); env_use(&e); u64 mark = mem_mark(); int n = 2 + (int)ch(SW, 2), id[NT]; kdx_draw(&kd); kdx_build(&kd); kd_lim = ch(SW, 3) ? 0 : 1 + (int)ch(SW, 30); vl_kdforest_set_max_num_comparisons(kd.f, (vl_size)kd_lim); vl_set_num_threads(1 + ch(SW, 3));
  for (int i = 0; i < n; i++) { Sea *s = sea + i; s->batch = (int)ch(SW, 4) == 3; s->se = s->batch ? 0 : vl_kdforest_new_searcher(kd.f); s->n = 1 + (int)ch(SW, 6); s->m = 1 + (int)ch(SW, 6); s->seed = ch(SW, 1 << 20); sim_log("thread %d: %s of %d for %d", i + 1, s->batch ? "batch" : "queries", s->n, s->m); sim_stat(s->batch ? "jobs.concurrent batch" : "jobs.concurrent searcher", 1); sim_event(hash_bytes(&s->n, 12, s->seed)); }
  sched_begin(2000 * (u64)n); for (int i = 0; i < n; i++) id[i] = sched_spawn(sea_run, sea + i);
  for (int i = 0; i < n; i++) sched_join(id[i]);
  sched_end(); sim_log("%llu steps, %llu hand-overs", (unsigned long long)sched_steps, (unsigned long long)sched_switches); if (sched_switches > (u64)(2 * n)) sim_nontrivial(); kdx_drop(&kd); vl_set_num_threads(1);
  check_all_released("after the forest was deleted", mark);
}
const Prop sim_props[] = {{"C05", run_C05}, {"C06", run_C06}, {"C07", run_C07}, {"C08", run_C08}, {0, 0}};
const Demo sim_demos[] = {{0, 0, 0}};
