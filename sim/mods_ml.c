/* Clustering, encoding, search, classification modules. */
#include "mods.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/aib.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/kmeans.h>
#include <vl/kdtree.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/random.h>

static int dummy_obj;
static void *mk_none(const Plan *op) { (void)op; return &dummy_obj; }
static void dr_none(void *o) { (void)o; }
static void pl_none(Plan *op) { plan_clear(op); }
#define SEED() ch(SW, 1 << 24)
static vl_type tp(int d) { return d ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT; }
static void out_t(Out *o, const char *l, const void *p, size_t n, int d) { if (d) out_d(o, l, p, n); else out_f(o, l, p, n); }
static void *data_t(Ins *s, Rng *r, int dim, int n, int kind, int isd) {
  double *x = malloc(sizeof(double) * (size_t)dim * n + 8); gen_data_d(r, x, dim, n, kind);
  void *p = in_bytes(s, (size_t)dim * n * (isd ? 8 : 4), isd ? 8 : 4); data_convert(x, p, (size_t)dim * n, isd); free(x); return p;
}
static void seed_rand(u64 v) { vl_rand_seed(vl_get_rand(), (vl_uint32)(v * 2654435761u + 1)); }

/* ------------------------------------------------------------------ aib */
typedef struct { VlAIB *a; Ins s; double *P; int nv, nl; } AibObj;
static void aib_po(Plan *p) { plan_clear(p); p->seed = SEED(); p->i[0] = 2 + (int)ch(SW, 20); p->i[1] = 2 + (int)ch(SW, 5); p->i[2] = (int)ch(SW, 4); }
static void *aib_mk(const Plan *op) {
  Ins h = {0}; AibObj *b = in_out(&h, sizeof *b, 8); memset(b, 0, sizeof *b); b->s = h; b->nv = op->i[0]; b->nl = op->i[1]; int n = b->nv * b->nl;
  b->P = in_out(&b->s, (size_t)n * 8, 8); Rng r = rng_make(op->seed); double t = 0; for (int i = 0; i < n; i++) t += b->P[i] = op->i[2] == 1 ? 1 + rng_n(&r, 5) : .01 + rng_d(&r); for (int i = 0; i < n; i++) b->P[i] /= t;
  if (op->i[2] == 2) for (int i = 0; i < b->nl; i++) b->P[i] = 0; /* a value that never occurs */
  b->a = vl_aib_new(b->P, b->nv, b->nl); vl_aib_set_verbosity(b->a, mods_verbosity); return b;
}
static void aib_us(void *obj, const Plan *op, const Plan *up, Out *o) { AibObj *b = obj; (void)op; (void)up; vl_aib_process(b->a); out_u32(o, "parents", vl_aib_get_parents(b->a), 2 * b->nv - 1); out_d(o, "costs", vl_aib_get_costs(b->a), b->nv); }
static void aib_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); }
static void aib_dr(void *obj) { AibObj *b = obj; vl_aib_delete(b->a); Ins t = b->s; in_end(&t); }

/* ------------------------------------------------------------------ ikmeans */
static u8 *data_u8(Ins *s, Rng *r, int dim, int n, int kind) { u8 *p = in_bytes(s, (size_t)dim * n, 1); for (int i = 0; i < dim * n; i++) p[i] = (u8)(kind == 1 ? rng_n(r, 3) * 100 : kind == 2 ? (i / dim) % 4 * 60 + rng_n(r, 12) : rng_n(r, 256)); return p; }
static void ikm_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 2); }
static void ikm_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 12); p->i[1] = 1 + (int)ch(SW, 60); p->i[2] = 1 + (int)ch(SW, p->i[1] < 12 ? p->i[1] : 12); p->i[3] = (int)ch(SW, 3); p->i[4] = (int)ch(SW, 3); p->i[5] = ch(SW, 3) ? 100 : 1 + (int)ch(SW, 4); }
static void *ikm_mk(const Plan *op) { return vl_ikm_new(op->i[0] ? VL_IKM_ELKAN : VL_IKM_LLOYD); }
static void ikm_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlIKMFilt *f = obj; int M = up->i[0], N = up->i[1], K = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed); u8 *x = data_u8(&s, &r, M, N, up->i[3]);
  seed_rand(up->seed); vl_ikm_set_verbosity(f, mods_verbosity); vl_ikm_set_max_niters(f, up->i[5]);
  if (up->i[4] == 0) { vl_ikmacc_t *c = in_bytes(&s, sizeof(vl_ikmacc_t) * M * K, sizeof(vl_ikmacc_t)); for (int i = 0; i < M * K; i++) c[i] = rng_n(&r, 256); in_seal(&s); vl_ikm_init(f, c, M, K); }
  else if (up->i[4] == 1) { in_seal(&s); vl_ikm_init_rand_data(f, x, M, N, K); }
  else { in_seal(&s); vl_ikm_init_rand(f, M, K); }
  if (up->i[4] != 2) out_i(o, "train", vl_ikm_train(f, x, N));
  out_put(o, "centers", sizeof(vl_ikmacc_t) == 8 ? T_I64 : T_I32, vl_ikm_get_centers(f), (size_t)M * K);
  vl_uint32 *a = in_out(&s, 4 * (size_t)N, 4);
  if (up->i[4] != 2) { vl_ikm_push(f, a, x, N); out_u32(o, "asgn", a, N); out_i(o, "one", vl_ikm_push_one(vl_ikm_get_centers(f), x, M, K)); }
  in_end(&s);
}
static void ikm_dr(void *o) { vl_ikm_delete(o); }

/* ------------------------------------------------------------------ hikmeans */
static void hikm_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 8); p->i[1] = 2 + (int)ch(SW, 80); p->i[2] = 2 + (int)ch(SW, 3); if (p->i[2] > p->i[1]) p->i[2] = p->i[1]; p->i[3] = (int)ch(SW, 3); p->i[4] = 1 + (int)ch(SW, 3); p->i[5] = ch(SW, 2) ? 100 : 2; p->i[6] = 1 + (int)ch(SW, 20); }
static void *hikm_mk(const Plan *op) { return vl_hikm_new(op->i[0] ? VL_IKM_ELKAN : VL_IKM_LLOYD); }
static void hikm_walk(const VlHIKMNode *n, int M, Out *o) { int k = (int)vl_ikm_get_K(n->filter); out_i(o, "K", k); if (k) out_put(o, "centers", sizeof(vl_ikmacc_t) == 8 ? T_I64 : T_I32, vl_ikm_get_centers(n->filter), (size_t)M * k); if (n->children) for (int i = 0; i < k; i++) hikm_walk(n->children[i], M, o); }
static void hikm_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlHIKMTree *f = obj; int M = up->i[0], N = up->i[1], K = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed); u8 *x = data_u8(&s, &r, M, N, up->i[3]), *y = data_u8(&s, &r, M, up->i[6], 0); in_seal(&s);
  seed_rand(up->seed); vl_hikm_set_verbosity(f, mods_verbosity); vl_hikm_set_max_niters(f, up->i[5]);
  vl_hikm_init(f, M, K, up->i[4]); vl_hikm_train(f, x, N); hikm_walk(vl_hikm_get_root(f), M, o);
  vl_uint32 *a = in_out(&s, 4 * (size_t)up->i[6] * up->i[4], 4); vl_hikm_push(f, a, y, up->i[6]); out_u32(o, "asgn", a, (size_t)up->i[6] * up->i[4]); in_end(&s);
}
static void hikm_dr(void *o) { vl_hikm_delete(o); }

/* ------------------------------------------------------------------ kmeans */
static void km_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 2); p->i[1] = (int)ch(SW, 2); }
static void km_pu(const Plan *op, Plan *p) {
  (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 10); p->i[1] = 1 + (int)ch(SW, 60); p->i[2] = 1 + (int)ch(SW, p->i[1] < 9 ? p->i[1] : 9); p->i[3] = (int)ch(SW, 4); p->i[4] = (int)ch(SW, 3); p->i[5] = (int)ch(SW, 2);
  p->i[6] = 1 + (int)ch(SW, 3); p->i[7] = 1 + (int)ch(SW, 20); p->i[8] = 1 + (int)ch(SW, 3); p->i[9] = (int)ch(SW, 4) ? 0 : 1 + (int)ch(SW, 10); p->i[10] = (int)ch(SW, 4); p->d[0] = ch(SW, 2) ? 1e-4 : chd(SW, 0, .5);
}
static void *km_mk(const Plan *op) { return vl_kmeans_new(tp(op->i[0]), op->i[1] ? VlDistanceL1 : VlDistanceL2); }
void km_settings(VlKMeans *f, const Plan *up) {
  vl_kmeans_set_algorithm(f, up->i[4] == 0 ? VlKMeansLloyd : up->i[4] == 1 ? VlKMeansElkan : VlKMeansANN); vl_kmeans_set_initialization(f, up->i[5] ? VlKMeansPlusPlus : VlKMeansRandomSelection);
  vl_kmeans_set_num_repetitions(f, up->i[6]); vl_kmeans_set_max_num_iterations(f, up->i[7]); vl_kmeans_set_num_trees(f, up->i[8]); vl_kmeans_set_max_num_comparisons(f, up->i[9]); vl_kmeans_set_verbosity(f, mods_verbosity); vl_kmeans_set_min_energy_variation(f, up->d[0]);
}
static void km_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlKMeans *f = obj; int isd = op->i[0], D = up->i[0], N = up->i[1], K = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed);
  void *x = data_t(&s, &r, D, N, up->i[3], isd); in_seal(&s); km_settings(f, up); seed_rand(up->seed);
  if (up->i[10] == 1) { vl_kmeans_init_centers_plus_plus(f, x, D, N, K); out_dv(o, "refine", vl_kmeans_refine_centers(f, x, N)); }
  else if (up->i[10] == 2) { vl_kmeans_init_centers_with_rand_data(f, x, D, N, K); out_dv(o, "refine", vl_kmeans_refine_centers(f, x, N)); }
  else if (up->i[10] == 3) { void *c = data_t(&s, &r, D, K, up->i[3], isd); in_seal(&s); vl_kmeans_set_centers(f, c, D, K); }
  else { out_dv(o, "cluster", vl_kmeans_cluster(f, x, D, N, K)); out_dv(o, "energy", vl_kmeans_get_energy(f)); }
  out_t(o, "centers", vl_kmeans_get_centers(f), (size_t)D * K, isd);
  vl_uint32 *a = in_out(&s, 4 * (size_t)N, 4); void *d = isd ? (void *)ou_d(&s, N) : (void *)ou_f(&s, N);
  vl_kmeans_quantize(f, a, d, x, N); out_u32(o, "asgn", a, N); out_t(o, "dist", d, N, isd);
  in_end(&s);
}
static void km_dr(void *o) { vl_kmeans_delete(o); }

/* ------------------------------------------------------------------ kdtree */
typedef struct { VlKDForest *f; VlKDForestSearcher *se[2]; Ins s; int isd, D, N; } KdObj;
static void kd_po(Plan *p) { plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 2); p->i[1] = (int)ch(SW, 2); p->i[2] = 1 + (int)ch(SW, 6); p->i[3] = 1 + (int)ch(SW, 80); p->i[4] = 1 + (int)ch(SW, 4); p->i[5] = (int)ch(SW, 2); p->i[6] = (int)ch(SW, 4); p->i[7] = (int)ch(SW, 3); }
static void kd_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 6); p->i[1] = ch(SW, 3) ? 0 : 1 + (int)ch(SW, 40); p->i[2] = 1 + (int)ch(SW, 5); p->i[3] = (int)ch(SW, 4); p->i[4] = ch(SW, 3) ? 0 : (int)ch(SW, 6); }
static void *kd_mk(const Plan *op) {
  Ins h = {0}; KdObj *b = in_out(&h, sizeof *b, 8); memset(b, 0, sizeof *b); b->s = h; b->isd = op->i[0]; b->D = op->i[2]; b->N = op->i[3]; Rng r = rng_make(op->seed);
  void *x = data_t(&b->s, &r, b->D, b->N, op->i[6], b->isd); in_seal(&b->s); seed_rand(op->seed);
  b->f = vl_kdforest_new(tp(b->isd), b->D, op->i[4], op->i[1] ? VlDistanceL1 : VlDistanceL2); vl_kdforest_set_thresholding_method(b->f, op->i[5] ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN);
  vl_kdforest_build(b->f, b->N, x); for (int i = 0; i < op->i[7]; i++) b->se[i] = vl_kdforest_new_searcher(b->f);
  return b;
}
/* searchers come and go; the list of the forest must follow */
static int kd_list(KdObj *b, VlKDForestSearcher **l, int n) { int k = 0; VlKDForestSearcher *s; while (k < n && (s = vl_kdforest_get_searcher(b->f, (vl_uindex)k))) l[k++] = s; if (k == n) sim_violation("searchers", "endless list of searchers"); return k; }
static void kd_searchers(KdObj *b, const Plan *up, const void *q, VlKDForestNeighbor *nb) {
  VlKDForestSearcher *l[64], *m[64]; Rng r = rng_make(up->seed ^ 77);
  for (int t = 0; t < up->i[4]; t++) {
    int n = kd_list(b, l, 64), own = 0; while (own < 2 && b->se[own]) own++;
    if (n > own && (n > 12 || rng_n(&r, 2))) { int k = own + (int)rng_n(&r, (u32)(n - own)); vl_kdforestsearcher_delete(l[k]); memmove(l + k, l + k + 1, sizeof *l * (size_t)(n - k - 1)); n--; }
    else l[n++] = vl_kdforest_new_searcher(b->f);
    int n2 = kd_list(b, m, 64); if (n2 != n || memcmp(l, m, sizeof *l * (size_t)n)) sim_violation("searchers", "the forest lists %d searchers, not the %d created and not deleted, in order", n2, n);
    if (n) vl_kdforestsearcher_query(l[rng_n(&r, (u32)n)], nb, 1, q);
  }
}
static void kd_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  KdObj *b = obj; Ins s = {0}; Rng r = rng_make(up->seed); int k = up->i[0], nq = up->i[2]; if (k > b->N) k = b->N; (void)op;
  void *q = data_t(&s, &r, b->D, nq, up->i[3] == 3 ? 1 : up->i[3], b->isd); in_seal(&s); size_t es = b->isd ? 8 : 4;
  vl_kdforest_set_max_num_comparisons(b->f, up->i[1]); VlKDForestNeighbor *nb = in_out(&s, sizeof *nb * k, 8);
  for (int i = 0; i < nq; i++) { vl_kdforest_query(b->f, nb, k, (char *)q + es * b->D * i); for (int j = 0; j < k; j++) { if (up->i[1] == 0 || nb[j].index != (vl_uindex)-1) { out_i(o, "nn", nb[j].index); out_dv(o, "nd", nb[j].distance); } else out_i(o, "nn", -1); } }
  for (int t = 0; t < 2; t++) if (b->se[t]) { vl_kdforestsearcher_query(b->se[t], nb, k, q); for (int j = 0; j < k; j++) { out_i(o, "snn", nb[j].index); if (nb[j].index != (vl_uindex)-1) out_dv(o, "snd", nb[j].distance); } }
  kd_searchers(b, up, q, nb);
  vl_uint32 *ix = in_out(&s, 4 * (size_t)k * nq, 4); void *d = in_out(&s, es * k * nq, es); out_i(o, "ncmp", up->i[1] ? 0 : (i64)(vl_kdforest_query_with_array(b->f, ix, k, nq, d, q) > 0));
  if (up->i[1]) vl_kdforest_query_with_array(b->f, ix, k, nq, d, q);
  out_u32(o, "index", ix, (size_t)k * nq); if (up->i[1] == 0) out_t(o, "dist", d, (size_t)k * nq, b->isd);
  out_i(o, "depth", vl_kdforest_get_depth_of_tree(b->f, 0)); out_i(o, "nodes", vl_kdforest_get_num_nodes_of_tree(b->f, 0));
  in_check(&b->s); in_end(&s);
}
static void kd_dr(void *obj) { KdObj *b = obj; if (b->se[1]) vl_kdforestsearcher_delete(b->se[1]); vl_kdforest_delete(b->f); Ins t = b->s; in_end(&t); }

/* ------------------------------------------------------------------ gmm */
static void gmm_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 2); p->i[1] = 1 + (int)ch(SW, 9); p->i[2] = 1 + (int)ch(SW, 6); }
static void gmm_pu(const Plan *op, Plan *p) { plan_clear(p); p->seed = SEED(); p->i[0] = op->i[2] * 2 + (int)ch(SW, 50); p->i[1] = (int)ch(SW, 3); p->i[2] = 1 + (int)ch(SW, 3); p->i[3] = 1 + (int)ch(SW, 12); p->i[4] = (int)ch(SW, 4); p->i[5] = (int)ch(SW, 3); p->d[0] = ch(SW, 2) ? 1e-6 : chd(SW, 1e-3, .2); p->i[6] = (int)ch(SW, 2); }
static void *gmm_mk(const Plan *op) { return vl_gmm_new(tp(op->i[0]), op->i[1], op->i[2]); }
void gmm_dump(VlGMM *f, Out *o) {
  int isd = vl_gmm_get_data_type(f) == VL_TYPE_DOUBLE; size_t D = vl_gmm_get_dimension(f), K = vl_gmm_get_num_clusters(f);
  out_t(o, "means", vl_gmm_get_means(f), D * K, isd); out_t(o, "covs", vl_gmm_get_covariances(f), D * K, isd); out_t(o, "priors", vl_gmm_get_priors(f), K, isd);
}
static void gmm_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlGMM *f = obj; int isd = op->i[0], D = op->i[1], K = op->i[2], N = up->i[0]; Ins s = {0}; Rng r = rng_make(up->seed); void *x = data_t(&s, &r, D, N, up->i[4] == 1 ? 0 : up->i[4], isd); in_seal(&s);
  vl_gmm_set_verbosity(f, mods_verbosity); vl_gmm_set_num_repetitions(f, up->i[2]); vl_gmm_set_max_num_iterations(f, up->i[3]);
  if (up->i[5] == 2) { double *lb = in_d(&s, D); for (int i = 0; i < D; i++) lb[i] = up->d[0] * (1 + i); in_seal(&s); vl_gmm_set_covariance_lower_bounds(f, lb); } else vl_gmm_set_covariance_lower_bound(f, up->d[0]);
  vl_gmm_set_initialization(f, up->i[1] == 0 ? VlGMMRand : up->i[1] == 1 ? VlGMMKMeans : VlGMMCustom);
  VlKMeans *km = 0;
  if (up->i[1] == 1 && up->i[6]) { km = vl_kmeans_new(tp(isd), VlDistanceL2); vl_kmeans_set_initialization(km, VlKMeansPlusPlus); vl_kmeans_set_max_num_iterations(km, 5); vl_gmm_set_kmeans_init_object(f, km); } else vl_gmm_set_kmeans_init_object(f, 0);
  if (up->i[1] == 2) {
    void *m = data_t(&s, &r, D, K, 0, isd); double c[64], p[8]; for (int i = 0; i < D * K; i++) c[i] = .2 + rng_d(&r); double t = 0; for (int i = 0; i < K; i++) t += p[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) p[i] /= t;
    void *cv = in_bytes(&s, (size_t)D * K * (isd ? 8 : 4), isd ? 8 : 4), *pr = in_bytes(&s, (size_t)K * (isd ? 8 : 4), isd ? 8 : 4); data_convert(c, cv, (size_t)D * K, isd); data_convert(p, pr, K, isd); in_seal(&s);
    vl_gmm_set_means(f, m); vl_gmm_set_covariances(f, cv); vl_gmm_set_priors(f, pr); }
  seed_rand(up->seed);
  out_dv(o, "LL", vl_gmm_cluster(f, x, N)); out_dv(o, "LL.get", vl_gmm_get_loglikelihood(f)); gmm_dump(f, o);
  out_t(o, "posteriors", vl_gmm_get_posteriors(f), (size_t)N * K, isd);
  if (km) { vl_gmm_set_kmeans_init_object(f, 0); vl_kmeans_delete(km); }
  in_end(&s);
}
static void gmm_dr(void *o) { vl_gmm_delete(o); }

/* ------------------------------------------------------------------ fisher, vlad */
static void enc_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 2); p->i[1] = 1 + (int)ch(SW, 9); p->i[2] = 1 + (int)ch(SW, 6); p->i[3] = (int)ch(SW, 6) ? 1 + (int)ch(SW, 40) : 0; p->i[4] = (int)ch(SW, 16); p->i[5] = (int)ch(SW, 4); }
static void fisher_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; (void)obj; int isd = up->i[0], D = up->i[1], K = up->i[2], N = up->i[3]; Ins s = {0}; Rng r = rng_make(up->seed); size_t es = isd ? 8 : 4;
  void *x = data_t(&s, &r, D, N, up->i[5], isd), *m = data_t(&s, &r, D, K, 0, isd); double c[128], p[16]; for (int i = 0; i < D * K; i++) c[i] = .1 + rng_d(&r); double t = 0; for (int i = 0; i < K; i++) t += p[i] = .1 + rng_d(&r); for (int i = 0; i < K; i++) p[i] /= t;
  void *cv = in_bytes(&s, es * D * K, es), *pr = in_bytes(&s, es * K, es), *e = in_out(&s, es * 2 * D * K, es); data_convert(c, cv, (size_t)D * K, isd); data_convert(p, pr, K, isd); in_seal(&s);
  int fl = 0; if (up->i[4] & 1) fl |= VL_FISHER_FLAG_SQUARE_ROOT; if (up->i[4] & 2) fl |= VL_FISHER_FLAG_NORMALIZED; if (up->i[4] & 4) fl |= VL_FISHER_FLAG_FAST;
  out_i(o, "terms", vl_fisher_encode(e, tp(isd), m, D, K, cv, pr, x, N, fl)); out_t(o, "fisher", e, 2 * (size_t)D * K, isd); in_end(&s);
}
static void vlad_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; (void)obj; int isd = up->i[0], D = up->i[1], K = up->i[2], N = up->i[3]; Ins s = {0}; Rng r = rng_make(up->seed); size_t es = isd ? 8 : 4;
  void *x = data_t(&s, &r, D, N, up->i[5], isd), *m = data_t(&s, &r, D, K, 0, isd); double *a = malloc(8 * (size_t)K * N + 8); for (int i = 0; i < K * N; i++) a[i] = 0;
  for (int i = 0; i < N; i++) { if (up->seed & 1) a[i * K + (int)rng_n(&r, K)] = 1; else for (int k = 0; k < K; k++) a[i * K + k] = rng_d(&r); }
  void *av = in_bytes(&s, es * K * N, es), *e = in_out(&s, es * D * K, es); data_convert(a, av, (size_t)K * N, isd); free(a); in_seal(&s);
  int fl = 0; if (up->i[4] & 1) fl |= VL_VLAD_FLAG_NORMALIZE_COMPONENTS; if (up->i[4] & 2) fl |= VL_VLAD_FLAG_SQUARE_ROOT; if (up->i[4] & 4) fl |= VL_VLAD_FLAG_UNNORMALIZED; if (up->i[4] & 8) fl |= VL_VLAD_FLAG_NORMALIZE_MASS;
  vl_vlad_encode(e, tp(isd), m, D, K, x, N, av, fl); out_t(o, "vlad", e, (size_t)D * K, isd); in_end(&s);
}

/* ------------------------------------------------------------------ homkermap */
static void hom_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 3); p->i[1] = (int)ch(SW, 5); p->i[2] = (int)ch(SW, 2); p->d[0] = ch(SW, 2) ? 1 : chd(SW, .3, 1.5); p->d[1] = ch(SW, 2) ? -1 : chd(SW, 2, 30); }
static void hom_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 4); }
static void *hom_mk(const Plan *op) { return vl_homogeneouskernelmap_new(op->i[0] == 0 ? VlHomogeneousKernelIntersection : op->i[0] == 1 ? VlHomogeneousKernelChi2 : VlHomogeneousKernelJS, op->d[0], op->i[1], op->d[1], op->i[2] ? VlHomogeneousKernelMapWindowUniform : VlHomogeneousKernelMapWindowRectangular); }
static void hom_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlHomogeneousKernelMap *f = obj; Ins s = {0}; Rng r = rng_make(up->seed); size_t d = vl_homogeneouskernelmap_get_dimension(f), st = (size_t)up->i[0]; double *y = ou_d(&s, d * st); float *z = ou_f(&s, d * st);
  out_i(o, "dim", d);
  for (int k = 0; k < 6; k++) { double x = k == 0 ? 0 : (rng_d(&r) - .3) * pow(10, (double)rng_n(&r, 5) - 3); vl_homogeneouskernelmap_evaluate_d(f, y, st, x); vl_homogeneouskernelmap_evaluate_f(f, z, st, x); for (size_t i = 0; i < d; i++) { out_dv(o, "psi", y[i * st]); out_f(o, "psif", z + i * st, 1); } }
  in_end(&s);
}
static void hom_dr(void *o) { vl_homogeneouskernelmap_delete(o); }

/* ------------------------------------------------------------------ svm */
typedef struct { VlSvm *svm; VlSvmDataset *ds; VlHomogeneousKernelMap *hom; Ins s; int D, N, calls; double lastobj; } SvmObj;
static void svm_po(Plan *p) {
  plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 2); p->i[1] = 1 + (int)ch(SW, 6); p->i[2] = 2 + (int)ch(SW, 24); p->i[3] = (int)ch(SW, 5); p->i[4] = (int)ch(SW, 4); p->i[5] = (int)ch(SW, 2);
  p->d[0] = pow(10, chd(SW, -3, 0));
}
static void svm_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 400); p->i[1] = 1 + (int)ch(SW, 60); p->i[2] = (int)ch(SW, 4); p->d[0] = pow(10, chd(SW, -4, -1)); p->d[1] = ch(SW, 2) ? 0 : 1; p->d[2] = ch(SW, 2) ? 0 : .01; }
static void svm_diag(VlSvm *svm, void *data) { SvmObj *b = data; sim_hook("svm diagnostic callback"); b->calls++; b->lastobj = vl_svm_get_statistics(svm)->objective; }
static void *svm_mk(const Plan *op) {
  Ins h = {0}; SvmObj *b = in_out(&h, sizeof *b, 8); memset(b, 0, sizeof *b); b->s = h; b->D = op->i[1]; b->N = op->i[2]; Rng r = rng_make(op->seed); int isd = op->i[4] == 0 || op->i[5];
  double *x = malloc(8 * (size_t)b->D * b->N); double *y = in_d(&b->s, b->N);
  for (int i = 0; i < b->N; i++) { y[i] = i == 0 ? 1 : i == 1 ? -1 : rng_n(&r, 2) ? 1 : -1; for (int k = 0; k < b->D; k++) x[i * b->D + k] = (op->i[4] == 3 ? fabs(rng_d(&r)) : (rng_d(&r) - .5) * 2) + .4 * y[i] * (op->i[4] == 3 ? .5 : 1); }
  if (op->i[4] == 3) for (int i = 0; i < b->D * b->N; i++) x[i] = fabs(x[i]);
  void *xv = in_bytes(&b->s, (size_t)b->D * b->N * (isd ? 8 : 4), isd ? 8 : 4); data_convert(x, xv, (size_t)b->D * b->N, isd); free(x); in_seal(&b->s);
  VlSvmSolverType st = op->i[0] ? VlSvmSolverSdca : VlSvmSolverSgd;
  if (op->i[4] == 0) b->svm = vl_svm_new(st, xv, b->D, b->N, y, op->d[0]);
  else { b->ds = vl_svmdataset_new(tp(isd), xv, b->D, b->N); if (op->i[4] == 3) { b->hom = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, 1, -1, VlHomogeneousKernelMapWindowRectangular); vl_svmdataset_set_homogeneous_kernel_map(b->ds, b->hom); } b->svm = vl_svm_new_with_dataset(st, b->ds, y, op->d[0]); }
  if (b->svm) vl_svm_set_loss(b->svm, op->i[0] == 1 && op->i[3] == 0 ? VlSvmLossHinge : (VlSvmLossType)op->i[3]);
  return b;
}
static void svm_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  SvmObj *b = obj; VlSvm *f = b->svm; Ins s = {0}; size_t d = vl_svm_get_dimension(f); (void)op;
  double *m = in_d(&s, d), *w = in_d(&s, b->N); memset(m, 0, d * 8); Rng r = rng_make(up->seed); for (int i = 0; i < b->N; i++) w[i] = .5 + rng_d(&r); in_seal(&s);
  vl_svm_set_model(f, m); vl_svm_set_bias(f, 0); vl_svm_set_iteration_number(f, 1);
  vl_svm_set_max_num_iterations(f, up->i[0]); vl_svm_set_diagnostic_frequency(f, up->i[1]); vl_svm_set_epsilon(f, up->d[0]); vl_svm_set_bias_multiplier(f, up->d[1]); vl_svm_set_bias_learning_rate(f, up->d[2]);
  vl_svm_set_weights(f, up->i[2] == 1 ? w : 0); b->calls = 0;
  if (up->i[2] & 1) vl_svm_set_diagnostic_function(f, svm_diag, b); else vl_svm_set_diagnostic_function(f, 0, 0);
  seed_rand(up->seed); vl_svm_train(f);
  VlSvmStatistics const *st = vl_svm_get_statistics(f);
  out_d(o, "model", vl_svm_get_model(f), d); out_dv(o, "bias", vl_svm_get_bias(f)); out_i(o, "status", st->status); out_i(o, "iter", st->iteration); out_i(o, "epoch", st->epoch); out_dv(o, "objective", st->objective); out_dv(o, "regularizer", st->regularizer); out_dv(o, "loss", st->loss);
  if (op->i[0]) { out_dv(o, "dual", st->dualObjective); out_dv(o, "gap", st->dualityGap); } else out_dv(o, "scoresVariation", st->scoresVariation);
  out_d(o, "scores", vl_svm_get_scores(f), b->N); out_i(o, "calls", b->calls);
  vl_svm_set_weights(f, 0);
  in_check(&b->s); in_end(&s);
}
static void svm_dr(void *obj) { SvmObj *b = obj; if (b->svm) vl_svm_delete(b->svm); if (b->ds) vl_svmdataset_delete(b->ds); if (b->hom) vl_homogeneouskernelmap_delete(b->hom); Ins t = b->s; in_end(&t); }

/* ------------------------------------------------------------------ svmdataset */
typedef struct { VlSvmDataset *ds; VlHomogeneousKernelMap *hom[2]; Ins s; int D, N; } SdObj;
static void sd_po(Plan *p) { plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 2); p->i[1] = 1 + (int)ch(SW, 20); p->i[2] = 1 + (int)ch(SW, 8); }
static void sd_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 3); }
static void *sd_mk(const Plan *op) {
  Ins h = {0}; SdObj *b = in_out(&h, sizeof *b, 8); memset(b, 0, sizeof *b); b->s = h; b->D = op->i[1]; b->N = op->i[2]; Rng r = rng_make(op->seed); void *x = data_t(&b->s, &r, b->D, b->N, 0, op->i[0]); in_seal(&b->s);
  b->ds = vl_svmdataset_new(tp(op->i[0]), x, b->D, b->N);
  b->hom[0] = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, 1, -1, VlHomogeneousKernelMapWindowRectangular); b->hom[1] = vl_homogeneouskernelmap_new(VlHomogeneousKernelJS, .8, 2, -1, VlHomogeneousKernelMapWindowUniform);
  return b;
}
static void sd_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  SdObj *b = obj; Ins s = {0}; Rng r = rng_make(up->seed); (void)op;
  vl_svmdataset_set_homogeneous_kernel_map(b->ds, up->i[0] ? b->hom[up->i[0] - 1] : 0);
  size_t d = up->i[0] ? (size_t)b->D * vl_homogeneouskernelmap_get_dimension(b->hom[up->i[0] - 1]) : (size_t)b->D; out_i(o, "dim", vl_svmdataset_get_dimension(b->ds));
  double *m = ou_d(&s, d); for (size_t i = 0; i < d; i++) m[i] = rng_d(&r);
  VlSvmInnerProductFunction ip = vl_svmdataset_get_inner_product_function(b->ds); VlSvmAccumulateFunction ac = vl_svmdataset_get_accumulate_function(b->ds);
  for (int k = 0; k < 3; k++) { vl_uindex e = rng_n(&r, b->N); out_dv(o, "inner", ip(b->ds, e, m)); ac(b->ds, e, m, rng_d(&r) - .5); }
  out_d(o, "model", m, d); vl_svmdataset_set_homogeneous_kernel_map(b->ds, 0); in_check(&b->s); in_end(&s);
}
static void sd_dr(void *obj) { SdObj *b = obj; vl_svmdataset_delete(b->ds); vl_homogeneouskernelmap_delete(b->hom[0]); vl_homogeneouskernelmap_delete(b->hom[1]); Ins t = b->s; in_end(&t); }

const Mod mods_ml[] = {
  {"aib", M_MSG, aib_po, aib_pu, aib_mk, aib_us, aib_dr},
  {"ikmeans", M_REUSE | M_RAND | M_MSG, ikm_po, ikm_pu, ikm_mk, ikm_us, ikm_dr},
  {"hikmeans", M_REUSE | M_RAND | M_MSG, ikm_po, hikm_pu, hikm_mk, hikm_us, hikm_dr},
  {"kmeans", M_REUSE | M_RAND | M_MSG | M_SIMD | M_OMP, km_po, km_pu, km_mk, km_us, km_dr},
  {"kdtree", M_REUSE | M_RAND | M_SIMD | M_OMP, kd_po, kd_pu, kd_mk, kd_us, kd_dr},
  {"gmm", M_REUSE | M_RAND | M_MSG | M_SIMD | M_OMP, gmm_po, gmm_pu, gmm_mk, gmm_us, gmm_dr},
  {"fisher", M_SIMD | M_OMP, pl_none, enc_pu, mk_none, fisher_us, dr_none},
  {"vlad", M_SIMD | M_OMP, pl_none, enc_pu, mk_none, vlad_us, dr_none},
  {"svm", M_RAND | M_SIMD, svm_po, svm_pu, svm_mk, svm_us, svm_dr},
  {"svmdataset", M_REUSE, sd_po, sd_pu, sd_mk, sd_us, sd_dr},
  {"homkermap", M_REUSE, hom_po, hom_pu, hom_mk, hom_us, hom_dr},
  {0, 0, 0, 0, 0, 0, 0}};
