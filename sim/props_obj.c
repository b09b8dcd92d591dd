/* Copies (C13) and documented allocation failures (C14). */
#include "jobs.h"
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/generic.h>
#include <vl/random.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/scalespace.h>
#include <vl/covdet.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/lbp.h>
#include <vl/pgm.h>
void ss_dump(VlScaleSpace *f, Out *o); void gmm_dump(VlGMM *f, Out *o);
static void out_t(Out *o, const char *l, const void *p, size_t n, int d) { if (d) out_d(o, l, p, n); else out_f(o, l, p, n); }
static void *data_t(Ins *s, Rng *r, int dim, int n, int kind, int isd) {
  double *x = malloc(sizeof(double) * (size_t)dim * (size_t)n + 8); gen_data_d(r, x, dim, n, kind);
  void *p = in_bytes(s, (size_t)dim * (size_t)n * (isd ? 8 : 4), isd ? 8 : 4); data_convert(x, p, (size_t)dim * (size_t)n, isd); free(x); return p;
}
static void seed_rand(u64 v) { vl_rand_seed(vl_get_rand(), (vl_uint32)(v * 2654435761u + 1)); }

/* ---------------------------------------------------------------- C13 */
enum { T_KM, T_GMM, T_SS };
typedef struct { int type, isd, dist, D, K; Plan ss; } Obj;      /* how the object is created */
typedef struct { int kind; u64 seed; int n, k, a; double d; } Step;
#define MAXS 8
typedef struct { Obj o; Step pre[MAXS], s[2][MAXS]; int npre, n[2]; } C13;
static const char *stepname[3][12] = {
  {"look", "cluster", "quantize", "refine", "set centers", "set algorithm and initialization", "set repetitions", "set iterations and variation", "set trees and comparisons", "quantize with trees", "initialize", "reset"},
  {"look", "cluster", "expectation maximization", "set means", "set covariances and priors", "set initialization", "set repetitions", "set iterations", "set lower bound", "set lower bounds", "reset", 0},
  {"look", "put image", "write a level", 0}};
static void step_draw(const Obj *o, Step *s, int *have) {
  memset(s, 0, sizeof *s); s->seed = ch(SW, 1u << 20); s->n = 2 + o->K + (int)ch(SW, 40); s->a = (int)ch(SW, 6); s->d = chd(SW, 0, 1);
  if (o->type == T_KM) { s->kind = (int)ch(SW, 12); s->k = 1 + (int)ch(SW, (u64)o->K); if ((s->kind == 2 || s->kind == 3 || s->kind == 9) && !*have) s->kind = 1; if (s->kind == 1 || s->kind == 4 || s->kind == 10) *have = 1; if (s->kind == 11) *have = 0; }
  else if (o->type == T_GMM) { s->kind = (int)ch(SW, 11); if (s->kind == 2 && !*have) s->kind = 1; if (s->kind == 1 || s->kind == 3 || s->kind == 4) *have = 1; if (s->kind == 3 && *have == 1) s->kind = 1; }
  else s->kind = (int)ch(SW, 3);
}
static void *obj_new(const Obj *o) {
  if (o->type == T_KM) return vl_kmeans_new(o->isd ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT, o->dist ? VlDistanceL1 : VlDistanceL2);
  if (o->type == T_GMM) return vl_gmm_new(o->isd ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT, (vl_size)o->D, (vl_size)o->K);
  return mod_find("scalespace")->make(&o->ss);
}
static void obj_del(const Obj *o, void *p) { if (o->type == T_KM) vl_kmeans_delete(p); else if (o->type == T_GMM) vl_gmm_delete(p); else vl_scalespace_delete(p); }
static void *obj_copy(const Obj *o, void *p) { return o->type == T_KM ? (void *)vl_kmeans_new_copy(p) : o->type == T_GMM ? (void *)vl_gmm_new_copy(p) : (void *)vl_scalespace_new_copy(p); }
static void obj_look(const Obj *b, void *p, Out *o) {
  if (b->type == T_KM) { VlKMeans *f = p; vl_size D = vl_kmeans_get_dimension(f), K = vl_kmeans_get_num_centers(f);
    out_i(o, "data type", vl_kmeans_get_data_type(f)); out_i(o, "distance", vl_kmeans_get_distance(f)); out_i(o, "algorithm", vl_kmeans_get_algorithm(f)); out_i(o, "initialization", vl_kmeans_get_initialization(f)); out_i(o, "repetitions", vl_kmeans_get_num_repetitions(f)); out_i(o, "iterations", vl_kmeans_get_max_num_iterations(f)); out_dv(o, "variation", vl_kmeans_get_min_energy_variation(f)); out_i(o, "verbosity", vl_kmeans_get_verbosity(f)); out_i(o, "comparisons", vl_kmeans_get_max_num_comparisons(f)); out_i(o, "trees", vl_kmeans_get_num_trees(f)); out_dv(o, "energy", vl_kmeans_get_energy(f));
    out_i(o, "dimension", D); out_i(o, "centers", K); if (K && vl_kmeans_get_centers(f)) out_t(o, "center", vl_kmeans_get_centers(f), D * K, b->isd); }
  else if (b->type == T_GMM) { VlGMM *f = p;
    out_i(o, "data type", vl_gmm_get_data_type(f)); out_i(o, "dimension", vl_gmm_get_dimension(f)); out_i(o, "clusters", vl_gmm_get_num_clusters(f)); out_i(o, "repetitions", vl_gmm_get_num_repetitions(f)); out_i(o, "iterations", vl_gmm_get_max_num_iterations(f)); out_i(o, "verbosity", vl_gmm_get_verbosity(f)); out_i(o, "initialization", vl_gmm_get_initialization(f)); out_d(o, "bounds", vl_gmm_get_covariance_lower_bounds(f), vl_gmm_get_dimension(f)); out_dv(o, "LL", vl_gmm_get_loglikelihood(f)); gmm_dump(f, o); }
  else ss_dump(p, o);
}
static void step_run(const Obj *b, void *p, const Step *s, Out *o) {
  Ins in = {0}; Rng r = rng_make(s->seed); int isd = b->isd, D = b->D; size_t es = isd ? 8 : 4; seed_rand(s->seed); paint_stack(); out_append_tag(o, "step");
  if (!s->kind) { obj_look(b, p, o); return; }
  if (b->type == T_KM) { VlKMeans *f = p; int N = s->n, K = s->k;
    switch (s->kind) {
      case 1: { void *x = data_t(&in, &r, D, N, s->a & 3, isd); in_seal(&in); out_dv(o, "cluster", vl_kmeans_cluster(f, x, (vl_size)D, (vl_size)N, (vl_size)K)); obj_look(b, p, o); break; }
      case 2: case 9: { void *x = data_t(&in, &r, D, N, s->a & 3, isd); in_seal(&in); vl_uint32 *a = in_out(&in, 4 * (size_t)N, 4); void *d = in_out(&in, es * (size_t)N, es); for (int i = 0; i < N; i++) a[i] = (vl_uint32)rng_n(&r, (u32)vl_kmeans_get_num_centers(f)); /* with update: earlier assignments */ if (s->kind == 2) vl_kmeans_quantize(f, a, d, x, (vl_size)N); else vl_kmeans_quantize_ann(f, a, d, x, (vl_size)N, (vl_bool)(s->a & 1)); out_u32(o, "assignment", a, (size_t)N); out_t(o, "distance", d, (size_t)N, isd); break; }
      case 3: { void *x = data_t(&in, &r, D, (int)vl_kmeans_get_num_centers(f) + N, s->a & 3, isd); in_seal(&in); out_dv(o, "refine", vl_kmeans_refine_centers(f, x, vl_kmeans_get_num_centers(f) + (vl_size)N)); obj_look(b, p, o); break; }
      case 4: { void *c = data_t(&in, &r, D, K, 0, isd); in_seal(&in); vl_kmeans_set_centers(f, c, (vl_size)D, (vl_size)K); break; }
      case 5: vl_kmeans_set_algorithm(f, s->a % 3 == 0 ? VlKMeansLloyd : s->a % 3 == 1 ? VlKMeansElkan : VlKMeansANN); vl_kmeans_set_initialization(f, s->a & 1 ? VlKMeansPlusPlus : VlKMeansRandomSelection); break;
      case 6: vl_kmeans_set_num_repetitions(f, (vl_size)(1 + s->a % 3)); vl_kmeans_set_verbosity(f, s->a & 1); break;
      case 7: vl_kmeans_set_max_num_iterations(f, (vl_size)(1 + s->a)); vl_kmeans_set_min_energy_variation(f, s->d * .2); break;
      case 8: vl_kmeans_set_num_trees(f, (vl_size)(1 + s->a % 3)); vl_kmeans_set_max_num_comparisons(f, s->d < .3 ? 0 : (vl_size)(1 + s->a * 4)); break;
      case 10: { void *x = data_t(&in, &r, D, N, s->a & 3, isd); in_seal(&in); if (s->a & 1) vl_kmeans_init_centers_plus_plus(f, x, (vl_size)D, (vl_size)N, (vl_size)K); else vl_kmeans_init_centers_with_rand_data(f, x, (vl_size)D, (vl_size)N, (vl_size)K); break; }
      default: vl_kmeans_reset(f);
    }
  } else if (b->type == T_GMM) { VlGMM *f = p; int N = s->n + b->K, K = b->K;
    switch (s->kind) {
      case 1: case 2: {
        void *x = data_t(&in, &r, D, N, s->a & 1 ? 0 : 2, isd); double c[64], q[8]; double t = 0; for (int i = 0; i < D * K; i++) c[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) t += q[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) q[i] /= t;
        in_seal(&in);
        if (s->kind == 1 && vl_gmm_get_initialization(f) == VlGMMCustom) { void *m = data_t(&in, &r, D, K, 0, isd), *cv = in_bytes(&in, es * (size_t)(D * K), es), *pr = in_bytes(&in, es * (size_t)K, es); data_convert(c, cv, (size_t)(D * K), isd); data_convert(q, pr, (size_t)K, isd); in_seal(&in); vl_gmm_set_means(f, m); vl_gmm_set_covariances(f, cv); vl_gmm_set_priors(f, pr); }
        out_dv(o, "LL", s->kind == 1 ? vl_gmm_cluster(f, x, (vl_size)N) : vl_gmm_em(f, x, (vl_size)N)); obj_look(b, p, o); out_t(o, "posteriors", vl_gmm_get_posteriors(f), (size_t)N * (size_t)K, isd); break; }
      case 3: { void *m = data_t(&in, &r, D, K, 0, isd); in_seal(&in); vl_gmm_set_means(f, m); break; }
      case 4: { double c[64], q[8], t = 0; for (int i = 0; i < D * K; i++) c[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) t += q[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) q[i] /= t; void *m = data_t(&in, &r, D, K, 0, isd), *cv = in_bytes(&in, es * (size_t)(D * K), es), *pr = in_bytes(&in, es * (size_t)K, es); data_convert(c, cv, (size_t)(D * K), isd); data_convert(q, pr, (size_t)K, isd); in_seal(&in); vl_gmm_set_means(f, m); vl_gmm_set_covariances(f, cv); vl_gmm_set_priors(f, pr); break; }
      case 5: vl_gmm_set_initialization(f, s->a % 3 == 0 ? VlGMMRand : s->a % 3 == 1 ? VlGMMKMeans : VlGMMCustom); break;
      case 6: vl_gmm_set_num_repetitions(f, (vl_size)(1 + s->a % 3)); vl_gmm_set_verbosity(f, s->a & 1); break;
      case 7: vl_gmm_set_max_num_iterations(f, (vl_size)(1 + s->a)); break;
      case 8: vl_gmm_set_covariance_lower_bound(f, .001 + s->d * .1); break;
      case 9: { double *lb = in_d(&in, (size_t)D); for (int i = 0; i < D; i++) lb[i] = .001 + .05 * rng_d(&r); in_seal(&in); vl_gmm_set_covariance_lower_bounds(f, lb); break; }
      default: vl_gmm_reset(f);
    }
  } else { VlScaleSpace *f = p; VlScaleSpaceGeometry g = vl_scalespace_get_geometry(f);
    if (s->kind == 1) { float *im = in_f(&in, g.width * g.height); gen_image_f(&r, im, (int)g.width, (int)g.height, 1, 255); in_seal(&in); vl_scalespace_put_image(f, im); }
    else { vl_index q = g.firstOctave + (vl_index)rng_n(&r, (u32)(g.lastOctave - g.firstOctave + 1)), l = g.octaveFirstSubdivision + (vl_index)rng_n(&r, (u32)(g.octaveLastSubdivision - g.octaveFirstSubdivision + 1)); VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(f, q); float *v = vl_scalespace_get_level(f, q, l); for (vl_size i = 0; i < og.width * og.height; i++) v[i] = (float)rng_d(&r); }
  }
  in_end(&in);
}
static int c13_side;
static void c13_ref(void *a, Out *o) { C13 *c = a; void *p = obj_new(&c->o); Out x; out_init(&x); if (c->o.type == T_SS) { Step s = {1, 1, 0, 0, 0, 0}; step_run(&c->o, p, &s, &x); } for (int i = 0; i < c->npre; i++) step_run(&c->o, p, &c->pre[i], &x); obj_look(&c->o, p, o); for (int i = 0; i < c->n[c13_side]; i++) step_run(&c->o, p, &c->s[c13_side][i], o); obj_del(&c->o, p); }
void run_C13(void) {
  static C13 c; Env e; memset(&c, 0, sizeof c);
  c.o.type = (int)ch(SW, 3); c.o.isd = (int)ch(SW, 2); c.o.dist = (int)ch(SW, 2); c.o.D = 1 + (int)ch(SW, 8); c.o.K = 1 + (int)ch(SW, 6); if (c.o.type == T_SS) { do { mod_find("scalespace")->plan_obj(&c.o.ss); } while (0); }
  int have = 0; c.npre = (int)ch(SW, 6); for (int i = 0; i < c.npre; i++) step_draw(&c.o, &c.pre[i], &have);
  for (int k = 0; k < 2; k++) { int h = have; c.n[k] = (int)ch(SW, 6); for (int i = 0; i < c.n[k]; i++) step_draw(&c.o, &c.s[k][i], &h); }
  int generations = 1 + (int)chance(SW, 1, 4); /* a copy of a copy, the intermediate one deleted */
  static const char *tn[] = {"kmeans", "gmm", "scalespace"}; char b[64]; snprintf(b, sizeof b, "jobs.%s", tn[c.o.type]); sim_stat(b, 1);
  Out ref[2], got[2], x, y; for (int k = 0; k < 2; k++) { out_init(&ref[k]); out_init(&got[k]); c13_side = k; in_pristine(c13_ref, &c, &ref[k]); } out_init(&x); out_init(&y);
  env_draw(&e); env_use(&e); int own = (int)ch(SE, 2) ? OWN_B : OWN_A; mem_use_allocator(own); u64 mark = mem_mark(); env_log("memory", &e);
  void *p[2]; p[0] = obj_new(&c.o); if (c.o.type == T_SS) { Step s = {1, 1, 0, 0, 0, 0}; step_run(&c.o, p[0], &s, &x); }
  sim_log("%s object (%d %d %d %d)", tn[c.o.type], c.o.isd, c.o.dist, c.o.D, c.o.K);
  for (int i = 0; i < c.npre; i++) { sim_log(" before: %s", stepname[c.o.type][c.pre[i].kind]); step_run(&c.o, p[0], &c.pre[i], &x); }
  out_clear(&x); obj_look(&c.o, p[0], &x);
  p[1] = obj_copy(&c.o, p[0]); if (!p[1]) sim_violation("copy-failed", "%s: no copy", tn[c.o.type]);
  if (generations == 2) { void *q = obj_copy(&c.o, p[1]); obj_del(&c.o, p[1]); p[1] = q; }
  if (c.o.type == T_SS) { VlScaleSpace *sh = vl_scalespace_new_shallow_copy(p[0]); VlScaleSpaceGeometry g = vl_scalespace_get_geometry(sh), h = vl_scalespace_get_geometry(p[0]); if (!vl_scalespacegeometry_is_equal(g, h)) sim_violation("copy", "the shallow copy has another geometry"); vl_scalespace_delete(sh); if (!vl_scalespacegeometry_is_equal(vl_scalespace_get_geometry(p[1]), h)) sim_violation("copy", "the copy has another geometry"); }
  out_clear(&y); obj_look(&c.o, p[1], &y); char w[100];
  snprintf(w, sizeof w, "%s: the copy just made, against the original", tn[c.o.type]); expect_same("copy", w, &y, &x, 0, 0);
  out_clear(&y); obj_look(&c.o, p[0], &y); snprintf(w, sizeof w, "%s: the original after being copied", tn[c.o.type]); expect_same("original-changed", w, &y, &x, 0, 0);
  obj_look(&c.o, p[0], &got[0]); obj_look(&c.o, p[1], &got[1]);
  int i[2] = {0, 0}; u64 h = 0;
  while (i[0] <= c.n[0] || i[1] <= c.n[1]) { /* one more than the steps: deletion */
    int k = i[0] > c.n[0] ? 1 : i[1] > c.n[1] ? 0 : (int)ch(SS, 2); h = h * 3 + (u64)k + 1;
    if (i[k] == c.n[k]) { sim_log(" delete the %s", k ? "copy" : "original"); obj_del(&c.o, p[k]); }
    else { sim_log(" %s: %s", k ? "copy" : "original", stepname[c.o.type][c.s[k][i[k]].kind]); step_run(&c.o, p[k], &c.s[k][i[k]], &got[k]); }
    i[k]++;
  }
  sim_event(h); sim_event(hash_bytes(&c, sizeof c, 1)); sim_event(out_hash(&got[0])); sim_event(out_hash(&got[1])); if (c.n[0] + c.n[1]) sim_nontrivial();
  for (int k = 0; k < 2; k++) { snprintf(w, sizeof w, "%s: the %s, against a lone object with the same history", tn[c.o.type], k ? "copy" : "original"); expect_same(k ? "copy-differs" : "original-affected", w, &got[k], &ref[k], 0, 0); }
  check_all_released("after deleting the original and the copy", mark);
}

/* ---------------------------------------------------------------- C14 */
enum { A_SS, A_SSG, A_SSCOPY, A_SSSHALLOW, A_SVM, A_SVMDS, A_SVMABS, A_DS, A_HOM, A_LBP, A_PUT, A_APPEND, A_PGM, A_PGMF, A_PATCH, A_N };
static const char *an[] = {"vl_scalespace_new", "vl_scalespace_new_with_geometry", "vl_scalespace_new_copy", "vl_scalespace_new_shallow_copy", "vl_svm_new", "vl_svm_new_with_dataset", "vl_svm_new_with_abstract_data", "vl_svmdataset_new", "vl_homogeneouskernelmap_new", "vl_lbp_new", "vl_covdet_put_image", "vl_covdet_append_feature", "vl_pgm_read_new", "vl_pgm_read_new_f", "vl_covdet_extract_patch_for_frame"};
typedef struct {
  int op; Plan ssp; u64 seed; int w, h, D, N, solver, order, kernel, m;
  Ins in; VlScaleSpace *ss; VlSvmDataset *ds; VlCovDet *cd; double *data, *lab; float *im, *im2; int w2, h2; char file[16];
} Ctx;
static void arm(u64 at, u64 len) { mem_fault_at = at; mem_fault_len = len; mem_fault_cnt = 0; mem_fault_fired = 0; mem_fault_armed = 1; }
static void prepare(Ctx *c) {
  memset(&c->in, 0, sizeof c->in); Rng r = rng_make(c->seed); c->ss = 0; c->ds = 0; c->cd = 0;
  if (c->op == A_SSCOPY || c->op == A_SSSHALLOW) { c->ss = mod_find("scalespace")->make(&c->ssp); c->im = in_f(&c->in, (size_t)c->ssp.i[0] * (size_t)c->ssp.i[1]); gen_image_f(&r, c->im, c->ssp.i[0], c->ssp.i[1], 1, 255); in_seal(&c->in); vl_scalespace_put_image(c->ss, c->im); }
  if (c->op >= A_SVM && c->op <= A_DS) { c->data = in_d(&c->in, (size_t)(c->D * c->N)); gen_data_d(&r, c->data, c->D, c->N, 0); c->lab = in_d(&c->in, (size_t)c->N); for (int i = 0; i < c->N; i++) c->lab[i] = rng_n(&r, 2) ? 1 : -1; in_seal(&c->in); if (c->op == A_SVMDS || c->op == A_SVMABS) c->ds = vl_svmdataset_new(VL_TYPE_DOUBLE, c->data, (vl_size)c->D, (vl_size)c->N); }
  if (c->op == A_PUT || c->op == A_APPEND || c->op == A_PATCH) {
    c->cd = vl_covdet_new(c->solver ? VL_COVDET_METHOD_DOG : VL_COVDET_METHOD_HESSIAN); vl_covdet_set_first_octave(c->cd, c->kernel ? 0 : -1);
    c->im = in_f(&c->in, (size_t)(c->w * c->h)); gen_image_f(&r, c->im, c->w, c->h, 1, 1); c->im2 = in_f(&c->in, (size_t)(c->w2 * c->h2)); gen_image_f(&r, c->im2, c->w2, c->h2, 1, 1); in_seal(&c->in);
    if (c->op == A_PATCH || (c->op == A_PUT && c->order)) vl_covdet_put_image(c->cd, c->im, (vl_size)c->w, (vl_size)c->h);
    if (c->op == A_PUT && c->order == 2) vl_covdet_detect(c->cd);
  }
  if (c->op == A_PGM || c->op == A_PGMF) { u8 b[4096]; int k = sprintf((char *)b, "P5\n%d %d\n255\n", c->w2, c->h2); for (int i = 0; i < c->w2 * c->h2; i++) b[k++] = (u8)rng_n(&r, 256); snprintf(c->file, sizeof c->file, "a.pgm"); vfs_put(c->file, b, (size_t)k); }
}
static void done(Ctx *c) { if (c->ss) vl_scalespace_delete(c->ss); if (c->ds) vl_svmdataset_delete(c->ds); if (c->cd) vl_covdet_delete(c->cd); in_end(&c->in); }
/* performs the operation; 0: succeeded (outputs in o, objects it made are gone again), 1: the documented failure, -1: another failure */
static int attempt(Ctx *c, Out *o) {
  switch (c->op) {
    case A_SS: case A_SSG: case A_SSCOPY: case A_SSSHALLOW: {
      VlScaleSpace *s = c->op == A_SS ? vl_scalespace_new((vl_size)c->ssp.i[0], (vl_size)c->ssp.i[1]) : c->op == A_SSG ? mod_find("scalespace")->make(&c->ssp) : c->op == A_SSCOPY ? vl_scalespace_new_copy(c->ss) : vl_scalespace_new_shallow_copy(c->ss);
      if (!s) return 1;
      mem_fault_armed = 0; if (c->op != A_SSCOPY) { Ins in = {0}; Rng r = rng_make(c->seed + 1); VlScaleSpaceGeometry g = vl_scalespace_get_geometry(s); float *im = in_f(&in, g.width * g.height); gen_image_f(&r, im, (int)g.width, (int)g.height, 1, 255); in_seal(&in); vl_scalespace_put_image(s, im); in_end(&in); }
      ss_dump(s, o); vl_scalespace_delete(s); return 0; }
    case A_SVM: case A_SVMDS: case A_SVMABS: {
      VlSvmSolverType t = c->solver ? VlSvmSolverSdca : VlSvmSolverSgd;
      VlSvm *s = c->op == A_SVM ? vl_svm_new(t, c->data, (vl_size)c->D, (vl_size)c->N, c->lab, .01) : c->op == A_SVMDS ? vl_svm_new_with_dataset(t, c->ds, c->lab, .01) : vl_svm_new_with_abstract_data(t, c->ds, (vl_size)c->D, (vl_size)c->N, c->lab, .01);
      if (!s) return 1;
      mem_fault_armed = 0; if (c->op == A_SVMABS) vl_svm_set_data_functions(s, vl_svmdataset_get_inner_product_function(c->ds), vl_svmdataset_get_accumulate_function(c->ds));
      seed_rand(c->seed); vl_svm_set_max_num_iterations(s, 300); vl_svm_train(s); out_d(o, "model", vl_svm_get_model(s), vl_svm_get_dimension(s)); out_dv(o, "bias", vl_svm_get_bias(s)); out_d(o, "scores", vl_svm_get_scores(s), (size_t)c->N); vl_svm_delete(s); return 0; }
    case A_DS: { VlSvmDataset *d = vl_svmdataset_new(VL_TYPE_DOUBLE, c->data, (vl_size)c->D, (vl_size)c->N); if (!d) return 1; mem_fault_armed = 0; out_i(o, "n", vl_svmdataset_get_num_data(d)); out_i(o, "d", vl_svmdataset_get_dimension(d)); vl_svmdataset_delete(d); return 0; }
    case A_HOM: {
      static const VlHomogeneousKernelType kt[] = {VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS};
      VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(kt[c->kernel], 1, (vl_size)c->order, -1, c->solver ? VlHomogeneousKernelMapWindowUniform : VlHomogeneousKernelMapWindowRectangular); if (!m) return 1;
      mem_fault_armed = 0; double q[16]; for (int i = 0; i < 6; i++) { vl_homogeneouskernelmap_evaluate_d(m, q, 1, .3 * i - .5); out_d(o, "map", q, (size_t)(2 * c->order + 1)); } vl_homogeneouskernelmap_delete(m); return 0; }
    case A_LBP: { VlLbp *l = vl_lbp_new(VlLbpUniform, (vl_bool)c->solver); if (!l) return 1; mem_fault_armed = 0; Ins in = {0}; Rng r = rng_make(c->seed); float *im = in_f(&in, 24 * 24); gen_image_f(&r, im, 24, 24, 1, 1); in_seal(&in); float *f = ou_f(&in, 58 * 9); memset(f, 0, 58 * 9 * 4); vl_lbp_process(l, f, im, 24, 24, 8); out_f(o, "lbp", f, 58 * 9); in_end(&in); vl_lbp_delete(l); return 0; }
    case A_PUT: {
      int e = vl_covdet_put_image(c->cd, c->im2, (vl_size)c->w2, (vl_size)c->h2); if (e) return e == VL_ERR_ALLOC ? 1 : -1;
      mem_fault_armed = 0; ss_dump(vl_covdet_get_gss(c->cd), o); vl_covdet_detect(c->cd); vl_size n = vl_covdet_get_num_features(c->cd); out_i(o, "features", n); VlCovDetFeature const *f = vl_covdet_get_features(c->cd); for (vl_size i = 0; i < n; i++) { out_f(o, "frame", (float const *)&f[i].frame, 6); out_dv(o, "score", f[i].peakScore); } return 0; }
    case A_APPEND: { /* appends m features; continues after a failure */
      int failed = 0; u64 base = vl_covdet_get_num_features(c->cd);
      for (int i = 0; i < c->m; i++) {
        VlCovDetFeature ft; memset(&ft, 0, sizeof ft); ft.frame.x = (float)i; ft.frame.a11 = 1; ft.frame.a22 = (float)(i % 7 + 1); ft.peakScore = (float)i * .5f; int t = 0;
        for (;;) { u64 n0 = vl_covdet_get_num_features(c->cd), f0 = mem_fault_fired; int e = vl_covdet_append_feature(c->cd, &ft);
          if (e == VL_ERR_OK) { if (mem_fault_fired != f0) sim_violation("not-reported", "vl_covdet_append_feature: memory was refused and success reported"); break; }
          if (e != VL_ERR_ALLOC) return -1;
          failed = 1; if (vl_covdet_get_num_features(c->cd) != n0) sim_violation("failed-but-changed", "vl_covdet_append_feature failed and left %llu features instead of %llu", (unsigned long long)vl_covdet_get_num_features(c->cd), (unsigned long long)n0);
          if (mem_fault_fired == f0) return -1;
          if (++t > 3) mem_fault_armed = 0; }
      }
      (void)base; VlCovDetFeature const *f = vl_covdet_get_features(c->cd); for (vl_size i = 0; i < vl_covdet_get_num_features(c->cd); i++) { out_f(o, "frame", (float const *)&f[i].frame, 6); out_dv(o, "score", f[i].peakScore); } return failed ? 2 : 0; }
    case A_PATCH: {
      Ins in = {0}; float *p = ou_f(&in, 17 * 17); VlFrameOrientedEllipse fr; memset(&fr, 0, sizeof fr); fr.x = c->order == 0 ? 0 : c->order == 1 ? (float)(c->w - 1) : (float)c->w / 2; fr.y = c->kernel == 0 ? 1 : c->kernel == 1 ? (float)(c->h - 1) : (float)c->h / 2; fr.a11 = fr.a22 = 2 + (float)(c->m % 5);
      int e = (int)vl_covdet_extract_patch_for_frame(c->cd, p, 8, 3, .5, fr); mem_fault_armed = 0; if (!e) out_f(o, "patch", p, 17 * 17); in_end(&in); return e == 0 ? 0 : e == VL_ERR_ALLOC ? 1 : -1; }
    default: {
      VlPgmImage pi; vl_uint8 *d = 0; float *f = 0; int e = c->op == A_PGM ? vl_pgm_read_new(c->file, &pi, &d) : vl_pgm_read_new_f(c->file, &pi, &f); mem_fault_armed = 0;
      if (vfs_open_streams) sim_violation("stream-leak", "%s: stream left open", an[c->op]);
      if (e) return e == VL_ERR_ALLOC ? 1 : -1;
      if (c->op == A_PGM) { out_u8(o, "pixels", d, pi.width * pi.height); vl_free(d); } else { out_f(o, "pixels", f, pi.width * pi.height); vl_free(f); } return 0; }
  }
}
static void ctx_draw(Ctx *c) {
  memset(c, 0, sizeof *c); c->op = (int)ch(SW, A_N); mod_find("scalespace")->plan_obj(&c->ssp); c->ssp.i[7] = 0; c->seed = ch(SW, 1u << 20); c->w = 16 + (int)ch(SW, 40); c->h = 16 + (int)ch(SW, 40); c->w2 = 16 + (int)ch(SW, 40); c->h2 = 16 + (int)ch(SW, 40); if (ch(SW, 3) == 1) { c->w2 = c->w; c->h2 = c->h; }
  c->D = 1 + (int)ch(SW, 8); c->N = 2 + (int)ch(SW, 20); c->solver = (int)ch(SW, 2); c->order = (int)ch(SW, 3); c->kernel = (int)ch(SW, 3); c->m = 1 + (int)ch(SW, 5) * 520;
  char b[64]; snprintf(b, sizeof b, "jobs.%s", an[c->op]); sim_stat(b, 1);
}
/* how many of the operation's first requests are in the scope of the property */
static u64 in_scope(Ctx *c, u64 requests) {
  if (c->op == A_PUT) { VlScaleSpaceGeometry g = vl_scalespace_get_geometry(vl_covdet_get_gss(c->cd)); u64 r0 = mem_requests(); VlScaleSpace *s = vl_scalespace_new_with_geometry(g); u64 n = mem_requests() - r0; vl_scalespace_delete(s); return n < requests ? n : requests; }
  return requests;
}
void run_C14(void) {
  Ctx c; Env e; env_draw(&e); env_use(&e); mem_use_allocator((int)ch(SE, 2) ? OWN_B : OWN_A); u64 mark = mem_mark(); Out want, got, before, after; out_init(&want); out_init(&got); out_init(&before); out_init(&after);
  ctx_draw(&c); sim_log("%s (%d %d, %d %d, %d %d %d %d %d)", an[c.op], c.w, c.h, c.w2, c.h2, c.D, c.N, c.solver, c.order, c.kernel);
  /* undisturbed: the result and the number of requests */
  prepare(&c); arm((u64)-1, 1); int rc = attempt(&c, &want); u64 n = mem_fault_cnt; mem_fault_armed = 0; if (rc) sim_violation("failed", "%s failed without cause", an[c.op]);
  int reuses = c.op == A_PUT && c.order && c.w == c.w2 && c.h == c.h2; /* the same size again: no scale space is requested */
  n = reuses ? 0 : in_scope(&c, n); done(&c); check_all_released(an[c.op], mark);
  if (c.op == A_PATCH && n > 1) n = 1;
  if (!n) { sim_stat("no_request_in_scope", 1); return; }
  prepare(&c); if (c.ss) ss_dump(c.ss, &before);
  int times = 1 + (int)ch(SF, 3);
  for (int t = 0; t < times; t++) {
    u64 at = 1 + ch(SF, n), len = ch(SF, 2) ? 1 : (u64)1 << 40; u64 m0 = mem_mark(); u64 live0 = mem_live(OWN_A) + mem_live(OWN_B); (void)live0;
    if (c.op == A_PATCH && len > 1) len = 1;
    sim_log(" refuse request %llu of %llu%s", (unsigned long long)at, (unsigned long long)n, len > 1 ? " and all later ones" : "");
    out_clear(&got); arm(at, len); rc = attempt(&c, &got); mem_fault_armed = 0; sim_event(mix64(at * 2 + (len > 1), (u64)rc)); 
    if (!mem_fault_fired) { if (rc == 0 && (c.op == A_APPEND || c.op == A_PUT || c.op == A_PATCH)) { sim_stat("already_has_memory", 1); continue; } sim_harness_error("%s: request %llu not reached", an[c.op], (unsigned long long)at); }
    char st[64]; snprintf(st, sizeof st, "fault.refused_in_%.40s", an[c.op]); sim_stat(st, 1); sim_nontrivial();
    if (rc == 0) sim_violation("not-reported", "%s: request %llu of %llu was refused and success reported", an[c.op], (unsigned long long)at, (unsigned long long)n);
    if (rc < 0) sim_violation("wrong-failure", "%s: request %llu of %llu was refused; the failure is not the documented one", an[c.op], (unsigned long long)at, (unsigned long long)n);
    if (c.op != A_APPEND && c.op != A_PATCH && c.op != A_PUT) check_all_released("after the failure", m0);
    if (c.op == A_PUT) { size_t k = mem_live_since(OWN_A, m0) + mem_live_since(OWN_B, m0); if (k) { char d[200]; mem_describe_live(OWN_A, m0, d, sizeof d); sim_violation("leak", "%s failed and keeps %zu new block(s): %s", an[c.op], k, d); } }
    if (c.op == A_APPEND) break;
    in_check(&c.in); check_lock_free("after the failure");
  }
  if (c.ss) { ss_dump(c.ss, &after); expect_same("existing-object", "the original after a failed copy", &after, &before, 0, 0); }
  int again = (int)ch(SW, 4) != 3; /* sometimes the object is only deleted */
  if (again) {
    if (c.op == A_APPEND) { expect_same("contents", "features after failing and repeated additions", &got, &want, 0, 0); }
    else { out_clear(&got); rc = attempt(&c, &got); if (rc) sim_violation("failed", "%s failed again without cause", an[c.op]); sim_event(out_hash(&got)); char w[120]; snprintf(w, sizeof w, "%s repeated after failing", an[c.op]); expect_same("later-result", w, &got, &want, 0, 0); }
  }
  done(&c); check_all_released("at the end", mark);
}
/* known: the buffer of the image smoothing is not checked (vl/imopv.c, vl_imsmooth_f called by vl_scalespace_put_image) */
void demo_covdet_alloc(void) {
  Ctx c; memset(&c, 0, sizeof c); c.op = A_PUT; c.w = c.h = c.w2 = c.h2 = 32; c.solver = 1; c.kernel = 1; Out o; out_init(&o);
  prepare(&c); arm((u64)-1, 1); attempt(&c, &o); u64 n = mem_fault_cnt; mem_fault_armed = 0; u64 k = in_scope(&c, n); done(&c);
  if (k >= n) return;
  prepare(&c); arm(k + 1, 1); int rc = attempt(&c, &o); mem_fault_armed = 0;
  if (rc == 0) sim_violation("not-reported", "vl_covdet_put_image: refused memory not reported");
  done(&c);
}
