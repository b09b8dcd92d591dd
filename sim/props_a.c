/* Histories, aborts, memory ownership, purity, reuse, vector instructions (C01 - C04, C18). */
#include "jobs.h"
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <vl/generic.h>
#include <vl/random.h>
extern int sim_ready;

void sim_child_setup(void) {
  vfs_reset(); Env e; env_default(&e); env_use(&e);
  sim_clock_mode = 0; sim_clock_reset(1);
  mem_use_allocator(OWN_A); vl_set_printf_func(sim_printf);
  vl_get_rand(); /* the calling thread's context exists from here */
  sim_ready = 1;
}

/* ---------------------------------------------------------------- C01 */
#define MAXJ 4
typedef struct { Job ab[MAXJ], later[MAXJ]; int nab, nlater; } C01;
static void c01_ref(void *a, Out *o) {
  C01 *c = a;
  for (int i = 0; i < c->nab; i++) { sim_abort_cnt = 0; sim_abort_at = (u64)-1; sim_abort_armed = 1; job_run(&c->ab[i], 0); sim_abort_armed = 0; out_i(o, "hooks", (i64)sim_abort_cnt); }
  for (int i = 0; i < c->nlater; i++) { out_append_tag(o, "job"); job_run(&c->later[i], o); }
}
static void run_C01(void) {
  static C01 c; Env e; cpu_draw(); Out ref, got; out_init(&ref); out_init(&got);
  c.nab = 1 + (int)ch(SW, 3); c.nlater = 1 + (int)ch(SW, 2);
  mods_verbosity = (int)ch(SE, 3);
  for (int i = 0; i < c.nab; i++) job_draw(&c.ab[i], 0, 0);
  for (int i = 0; i < c.nlater; i++) { int same = (int)ch(SW, 3); if (same) { c.later[i].m = c.ab[c.nab - 1].m; c.later[i].m->plan_obj(&c.later[i].op); c.later[i].m->plan_use(&c.later[i].op, &c.later[i].up); } else job_draw(&c.later[i], 0, 0); }
  if (ch(SE, 2)) vl_set_simd_enabled(0);
  settings_mark();
  in_pristine(c01_ref, &c, &ref);
  i64 hooks[MAXJ]; size_t k = 0; for (int i = 0; i < c.nab; i++) { memcpy(&hooks[i], ref.buf + ref.it[k].off, 8); k++; }
  /* the rest of the reference is the outputs of the later jobs */
  u64 mark = mem_mark();
  for (volatile int i = 0; i < c.nab; i++) {
    env_draw(&e); env_use(&e); mem_use_allocator((int)ch(SE, 2) ? OWN_B : OWN_A); sim_print_ret = (int)ch(SE, 3);
    job_log("abandon", &c.ab[i]); sim_event(job_hash(&c.ab[i]));
    if (hooks[i] <= 0) { sim_stat("abandon.no_point", 1); job_run(&c.ab[i], 0); continue; }
    jmp_buf jb; sim_abort_jmp = &jb; sim_abort_cnt = 0; sim_abort_at = 1 + ch(SF, (u64)hooks[i]); sim_event(sim_abort_at);
    sim_abort_where = 0;
    if (!setjmp(jb)) { sim_abort_armed = 1; job_run(&c.ab[i], 0); sim_abort_armed = 0; sim_stat("abandon.not_reached", 1); }
    else {
      char b[64]; snprintf(b, sizeof b, "fault.abandon_at_%s", sim_abort_where); sim_stat(b, 1); sim_nontrivial();
      sim_log("  abandoned at call %llu of %lld (%s)", (unsigned long long)sim_abort_at, (long long)hooks[i], sim_abort_where);
      mem_release_all_since(OWN_A, mark); mem_release_all_since(OWN_B, mark); mem_release_all_since(OWN_USER, mark);
      char d[300]; if (mem_live_since(OWN_RAW, mark)) { mem_describe_live(OWN_RAW, mark, d, sizeof d); sim_violation("behind-the-allocator", "abandoned %s at call %llu (%s): memory obtained from the C library is left over: %s", c.ab[i].m->name, (unsigned long long)sim_abort_at, sim_abort_where, d); }
      check_lock_free("after an abandoned operation");
      char w[200]; snprintf(w, sizeof w, "after an abandoned %s (%s)", c.ab[i].m->name, sim_abort_where); settings_check(w);
    }
  }
  vfs_reset();
  env_draw(&e); env_use(&e); mem_use_allocator((int)ch(SE, 2) ? OWN_B : OWN_A); sim_print_ret = 0;
  for (int i = 0; i < c.nab; i++) out_i(&got, "hooks", hooks[i]);
  for (int i = 0; i < c.nlater; i++) { job_log("later", &c.later[i]); sim_event(job_hash(&c.later[i])); out_append_tag(&got, "job"); job_run(&c.later[i], &got); }
  sim_event(out_hash(&got));
  char w[200]; snprintf(w, sizeof w, "results after an abandoned %s (%s)", c.ab[c.nab - 1].m->name, sim_abort_where ? sim_abort_where : "-");
  expect_same("later-result", w, &got, &ref, 0, 0);
  settings_check("after the later operations");
  check_all_released("after the later operations", mark);
}

/* ---------------------------------------------------------------- C02 */
static void run_C02(void) {
  cpu_draw(); int nsess = 1 + (int)ch(SW, 3); mods_verbosity = (int)ch(SE, 2); u64 h = 0;
  for (int s = 0; s < nsess; s++) {
    Env e; env_draw(&e); env_use(&e); int own = (int)ch(SE, 2) ? OWN_B : OWN_A; mem_use_allocator(own);
    u64 mark = mem_mark();
    struct { const Mod *m; Plan op; void *obj; int tag; } ob[4]; int n = 0, tag = s * 100; Out o; out_init(&o);
    int steps = 2 + (int)ch(SW, 8); sim_log("session %d with allocator %c", s, own == OWN_A ? 'A' : 'B');
    int focus = (int)ch(SW, 2); const Mod *fm = mod_draw(0);
    for (int k = 0; k < steps || n; k++) {
      int act = k >= steps ? 2 : (int)ch(SW, 4);
      if (n == 0 && k < steps) act = 0;
      if (act == 0 && n < 4) {
        ob[n].m = focus ? fm : mod_draw(0); ob[n].m->plan_obj(&ob[n].op); mem_tag = ob[n].tag = ++tag; paint_stack(); ob[n].obj = ob[n].m->make(&ob[n].op);
        sim_log(" create %s -> object %d", ob[n].m->name, tag); char b[64]; snprintf(b, sizeof b, "jobs.%s", ob[n].m->name); sim_stat(b, 1); n++;
      } else if (act == 2) {
        int i = (int)ch(SW, n); mem_tag = 0; sim_log(" delete object %d (%s)", ob[i].tag, ob[i].m->name); ob[i].m->drop(ob[i].obj);
        for (int w = OWN_RAW; w <= OWN_USER; w++) if (mem_live_tag(w, ob[i].tag)) { char d[300]; mem_describe_tag(w, ob[i].tag, d, sizeof d); if (w == OWN_USER) sim_harness_error("harness memory of %s left", ob[i].m->name); sim_violation("leak", "%s: %zu block(s) from %s not returned when the object was deleted: %s", ob[i].m->name, mem_live_tag(w, ob[i].tag), w == OWN_RAW ? "the C library" : "the configured memory functions", d); }
        h = mix64(h, 3 + ob[i].tag); ob[i] = ob[--n];
      } else {
        int i = (int)ch(SW, n); Plan up; ob[i].m->plan_use(&ob[i].op, &up); out_clear(&o); mem_tag = ob[i].tag; paint_stack(); sim_log(" use object %d (%s) %llu", ob[i].tag, ob[i].m->name, (unsigned long long)up.seed); ob[i].m->use(ob[i].obj, &ob[i].op, &up, &o); h = mix64(h, out_hash(&o)); sim_stat("uses", 1);
      }
      sim_event(h);
    }
    mem_tag = 0; if (tag - s * 100 > 1) sim_nontrivial();
    check_all_released("at the end of the session", mark); out_free(&o);
    if (vfs_open_streams) sim_violation("stream-leak", "%d stream(s) left open", vfs_open_streams);
  }
}

/* ---------------------------------------------------------------- C03 */
static void c03_env(Env *e, int k) {
  env_draw(e); sim_clock_mode = (int)ch(SE, 6); sim_clock_reset(ch(SE, 1000)); mods_verbosity = (int)ch(SE, 3); sim_print_ret = (int)ch(SE, 3); mods_lowalign = (int)ch(SE, 4);
  if (sim_tracing) { char b[16]; snprintf(b, sizeof b, "execution %d", k); env_log(b, e); sim_log("  clock %d verbosity %d printf %d alignment %d", sim_clock_mode, mods_verbosity, sim_print_ret, mods_lowalign); }
}
static void run_C03(void) {
  cpu_draw(); Job j[2]; int n = 1 + (int)ch(SW, 2); Env e; u64 mark = mem_mark();
  for (int i = 0; i < n; i++) job_draw(&j[i], 0, 0);
  Out ref; out_init(&ref); int reps = 2 + (int)ch(SE, 2);
  for (int k = 0; k < reps; k++) {
    Out o; out_init(&o); c03_env(&e, k); env_use(&e); vl_rand_seed(vl_get_rand(), 99);
    int own = (int)ch(SE, 2); mem_use_allocator(own ? OWN_B : OWN_A);
    for (int i = 0; i < n; i++) { if (!k) { job_log("job", &j[i]); sim_event(job_hash(&j[i])); } job_run(&j[i], &o); rand_state(&o); }
    sim_event(out_hash(&o));
    if (k == 0) ref = o; else { char w[100]; snprintf(w, sizeof w, "execution %d of %s%s%s", k + 1, j[0].m->name, n > 1 ? ", " : "", n > 1 ? j[1].m->name : ""); expect_same("depends-on-environment", w, &o, &ref, 0, 0); out_free(&o); }
  }
  sim_nontrivial(); check_all_released("after the operations", mark);
}

/* ---------------------------------------------------------------- C04 */
static void run_C04(void) {
  cpu_draw(); const Mod *m = mod_draw(M_REUSE); Plan op, up[5]; int n = 1 + (int)ch(SW, 4); Env e; env_draw(&e); env_use(&e);
  m->plan_obj(&op); for (int i = 0; i <= n; i++) m->plan_use(&op, &up[i]);
  int rep = (int)ch(SW, 4); if (rep == 3) up[n] = up[0]; /* comes back to an earlier use */
  else if (rep == 2) { u64 s = up[n].seed; up[n] = up[n - 1]; up[n].seed = s; } /* same settings, other input */
  char b[64]; snprintf(b, sizeof b, "jobs.%s", m->name); sim_stat(b, 1);
  sim_log("%s object %llu: %d earlier uses", m->name, (unsigned long long)op.seed, n);
  Out fresh, used, x; out_init(&fresh); out_init(&used); out_init(&x);
  void *a = m->make(&op); paint_stack(); m->use(a, &op, &up[n], &fresh); m->drop(a);
  void *o = m->make(&op); void *by = 0; Plan bop, bup; const Mod *bm = 0; u64 h = 0;
  int withby = (int)ch(SW, 3) == 1; if (withby) { bm = ch(SW, 2) ? m : mod_draw(M_REUSE); bm->plan_obj(&bop); by = bm->make(&bop); sim_log(" with another %s object used in between", bm->name); }
  for (int i = 0; i < n; i++) { out_clear(&x); paint_stack(); sim_log(" use %llu (%d %d %d %d)", (unsigned long long)up[i].seed, up[i].i[0], up[i].i[1], up[i].i[2], up[i].i[3]); m->use(o, &op, &up[i], &x); h = mix64(h, out_hash(&x)); if (by && ch(SW, 2)) { bm->plan_use(&bop, &bup); bm->use(by, &bop, &bup, 0); } }
  paint_stack(); sim_log(" final use %llu (%d %d %d %d)", (unsigned long long)up[n].seed, up[n].i[0], up[n].i[1], up[n].i[2], up[n].i[3]); m->use(o, &op, &up[n], &used);
  sim_event(mix64(h, out_hash(&used))); sim_nontrivial(); sim_stat("uses", (u64)n + 1);
  char w[120]; snprintf(w, sizeof w, "%s object used %d time(s) before, against a new one", m->name, n); expect_same("reuse", w, &used, &fresh, 0, 0);
  m->drop(o); if (by) bm->drop(by);
}

/* ---------------------------------------------------------------- C18 */
extern u64 sim_toggle_seed; extern int sim_toggle;
static void run_C18(void) {
  cpu_draw(); Job j[2]; int n = 1 + (int)ch(SW, 2); Env e; env_draw(&e); env_use(&e);
  mods_lowalign = (int)ch(SE, 4);
  for (int i = 0; i < n; i++) {
    job_draw(&j[i], M_SIMD, 0);
    /* rounding must not decide between discrete outcomes: doubles in general position, or exactly representable integers */
    if (!strcmp(j[i].m->name, "kmeans") || !strcmp(j[i].m->name, "gmm")) { int *kind = j[i].m->name[0] == 'k' ? &j[i].up.i[3] : &j[i].up.i[4]; j[i].op.i[0] = 1; if (*kind & 1) *kind = 0; if (j[i].m->name[0] == 'k') j[i].up.i[6] = 1; else j[i].up.i[2] = 1; }
    if (!strcmp(j[i].m->name, "kdtree")) { j[i].op.i[6] = 1; j[i].up.i[3] = 1; }
    job_log("job", &j[i]);
  }
  Out off, on, mixed; out_init(&off); out_init(&on); out_init(&mixed);
  for (int i = 0; i < n; i++) {
    out_clear(&off); out_clear(&on); out_clear(&mixed);
    vl_rand_seed(vl_get_rand(), 7); vl_set_simd_enabled(0); job_run(&j[i], &off);
    vl_rand_seed(vl_get_rand(), 7); vl_set_simd_enabled(1); job_run(&j[i], &on);
    sim_event(out_hash(&off)); sim_event(out_hash(&on));
    char w[100]; snprintf(w, sizeof w, "%s with vector instructions, against without", j[i].m->name);
    expect_same("simd", w, &on, &off, 1e-4, 1e-6);
    /* toggled from another place at every call back into the program */
    sim_toggle = 1; sim_toggle_seed = ch(SF, 1 << 16); vl_set_simd_enabled((vl_bool)ch(SF, 2)); vl_rand_seed(vl_get_rand(), 7);
    job_run(&j[i], &mixed); sim_toggle = 0; sim_event(out_hash(&mixed));
    snprintf(w, sizeof w, "%s with vector instructions switched while it runs, against without", j[i].m->name); expect_same("simd-toggle", w, &mixed, &off, 1e-4, 1e-6);
  }
  sim_nontrivial();
}

void run_C09(void); void run_C10(void); void run_C13(void); void run_C14(void); void run_C15(void); void run_C16(void); void run_C17(void); void run_C11(void); void run_C12(void); void run_C08(void);
void demo_covdet_alloc(void);
const Prop sim_props[] = {{"C01", run_C01}, {"C02", run_C02}, {"C03", run_C03}, {"C04", run_C04}, {"C18", run_C18},
  {"C08", run_C08}, {"C09", run_C09}, {"C10", run_C10}, {"C11", run_C11}, {"C12", run_C12}, {"C13", run_C13}, {"C14", run_C14},
  {"C15", run_C15}, {"C16", run_C16}, {"C17", run_C17},
  {0, 0}};
const Demo sim_demos[] = {
  {"C14", "covdet-smoothing-buffer", demo_covdet_alloc},
  {0, 0, 0}};
