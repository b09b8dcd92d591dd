/* Clustering (C15), SVM training (C16) and the random generator (C17) against independent references. */
#include "jobs.h"
#include "mt.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <vl/generic.h>
#include <vl/random.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>

static vl_type tp(int d) { return d ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT; }
static double at(const void *p, size_t i, int isd) { return isd ? ((const double *)p)[i] : ((const float *)p)[i]; }
static void *mk_data(Ins *s, Rng *r, int dim, int n, int kind, int isd) {
  double *x = malloc(sizeof(double) * (size_t)dim * (size_t)n + 8); gen_data_d(r, x, dim, n, kind);
  void *p = in_bytes(s, (size_t)dim * (size_t)n * (isd ? 8 : 4), isd ? 8 : 4); data_convert(x, p, (size_t)dim * (size_t)n, isd); free(x); return p;
}
/* puts this thread's generator in a drawn state: seeded, then advanced */
static void rand_put(u64 seed) { VlRand *r = vl_get_rand(); vl_rand_seed(r, (vl_uint32)(seed * 2654435761u + 1)); for (u32 k = (u32)(seed % 7) * 90; k; k--) vl_rand_uint32(r); }

/* ------------------------------------------------------------------------------------------- C15: k-means */
typedef struct { int isd, dist, D, N, K, kind, algo, init, reps, iters, trees, comps; double minvar; u64 seed, rnd; } Km;
static double kdist(const Km *c, const void *a, size_t i, const void *b, size_t j) { double t = 0; for (int d = 0; d < c->D; d++) { double u = at(a, i * (size_t)c->D + (size_t)d, c->isd) - at(b, j * (size_t)c->D + (size_t)d, c->isd); t += c->dist ? fabs(u) : u * u; } return t; }
static void km_set(VlKMeans *f, const Km *c, int algo, int reps, int iters, double minvar) {
  vl_kmeans_set_algorithm(f, algo == 0 ? VlKMeansLloyd : algo == 1 ? VlKMeansElkan : VlKMeansANN); vl_kmeans_set_initialization(f, c->init ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(f, (vl_size)reps); vl_kmeans_set_max_num_iterations(f, (vl_size)iters);
  vl_kmeans_set_num_trees(f, (vl_size)c->trees); vl_kmeans_set_max_num_comparisons(f, (vl_size)c->comps); vl_kmeans_set_min_energy_variation(f, minvar); vl_kmeans_set_verbosity(f, mods_verbosity);
}
/* energy of the model = sum of the distances to the nearest centers; also checks the quantizers on x */
static double km_check(const Km *c, VlKMeans *f, const void *x, double scale, const char *when, int *empty) {
  Ins s = {0}; size_t N = (size_t)c->N, es = c->isd ? 8 : 4; vl_uint32 *a = in_out(&s, 4 * N, 4); void *d = in_out(&s, es * N, es); const void *cs = vl_kmeans_get_centers(f); double tol = (c->isd ? 1e-9 : 2e-5), E = 0; int mass[16] = {0};
  if ((int)vl_kmeans_get_num_centers(f) != c->K || (int)vl_kmeans_get_dimension(f) != c->D) sim_violation("model", "%s: %d centers of dimension %d instead of %d of %d", when, (int)vl_kmeans_get_num_centers(f), (int)vl_kmeans_get_dimension(f), c->K, c->D);
  for (int i = 0; i < c->K * c->D; i++) if (!isfinite(at(cs, (size_t)i, c->isd))) sim_violation("model", "%s: a center is not finite", when);
  for (int q = 0; q < 2; q++) {
    if (q == 1 && c->comps) break; /* approximate on request */
    if (q == 0) vl_kmeans_quantize(f, a, d, x, N); else vl_kmeans_quantize_ann(f, a, d, x, N, 0);
    E = 0; memset(mass, 0, sizeof mass);
    for (size_t i = 0; i < N; i++) {
      if (a[i] >= (vl_uint32)c->K) sim_violation("assignment", "%s: datum %zu assigned to center %u of %d", when, i, a[i], c->K);
      double m = INFINITY; for (int k = 0; k < c->K; k++) { double t = kdist(c, x, i, cs, (size_t)k); if (t < m) m = t; }
      double own = kdist(c, x, i, cs, a[i]); E += m; mass[a[i]]++;
      if (own > m + tol * (m + scale)) sim_violation("assignment", "%s: datum %zu assigned to a center at %.9g, nearest at %.9g", when, i, own, m);
      if (fabs(at(d, i, c->isd) - own) > tol * (own + scale)) sim_violation("distance", "%s: datum %zu: distance %.9g returned, %.9g computed", when, i, at(d, i, c->isd), own);
    }
  }
  if (empty) { *empty = 0; for (int k = 0; k < c->K; k++) *empty += mass[k] == 0; }
  in_end(&s); return E;
}
static int rand_same(const VlRand *a, const VlRand *b) { VlRand x = *a, y = *b; for (int i = 0; i < 3; i++) if (vl_rand_uint32(&x) != vl_rand_uint32(&y)) return 0; return 1; }
/* Textbook iterations (assign, then mean or lower median) from the centers cs; E[t] = energy after t updates.
   Returns the number of entries of E which are beyond doubt: stops where a cluster is empty or an assignment is nearly tied. */
static int cmp_d(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
static int km_reference(const Km *c, const void *x, const double *init, int T, double *E) {
  int D = c->D, K = c->K, N = c->N, ok = 0; double *cs = malloc(8 * (size_t)(D * K)), *v = malloc(8 * (size_t)N); int *as = malloc(sizeof(int) * (size_t)N); memcpy(cs, init, 8 * (size_t)(D * K));
  for (int t = 0; t <= T; t++) {
    int mass[16] = {0}, doubt = 0; E[t] = 0;
    for (int i = 0; i < N; i++) { double m = INFINITY, m2 = INFINITY; for (int k = 0; k < K; k++) { double q = 0; for (int d = 0; d < D; d++) { double u = at(x, (size_t)(i * D + d), c->isd) - cs[k * D + d]; q += c->dist ? fabs(u) : u * u; } if (q < m) { m2 = m; m = q; as[i] = k; } else if (q < m2) m2 = q; } if (K > 1 && m2 - m < 1e-7 * (m2 + 1e-9)) doubt = 1; E[t] += m; mass[as[i]]++; }
    ok = t + 1; if (doubt) break; /* the energy stands, what follows does not */
    for (int k = 0; k < K; k++) if (!mass[k]) doubt = 1;
    if (doubt) break;
    for (int k = 0; k < K; k++) for (int d = 0; d < D; d++) { int n = 0; double sum = 0; for (int i = 0; i < N; i++) if (as[i] == k) { v[n] = at(x, (size_t)(i * D + d), c->isd); sum += v[n++]; } if (c->dist) { qsort(v, (size_t)n, 8, cmp_d); cs[k * D + d] = v[(n - 1) / 2]; } else cs[k * D + d] = sum / n; }
  }
  free(cs); free(v); free(as); return ok;
}
static void rand_put(u64 seed);
/* seeding: centers are data, different ones if there are enough, drawn uniformly or in proportion to the distance */
static void c15_seeding(void) {
  Km c; memset(&c, 0, sizeof c); c.isd = (int)ch(SW, 2); c.dist = (int)ch(SW, 2); c.D = 1 + (int)ch(SW, 3); c.N = 3 + (int)ch(SW, 5); c.K = 1 + (int)ch(SW, (u64)c.N); c.init = (int)ch(SW, 2); c.seed = ch(SW, 1 << 24); c.rnd = ch(SS, 1 << 24); int dup = chance(SW, 1, 3), R = 300; sim_stat("jobs.seeding", 1); sim_event(hash_bytes(&c, sizeof c, 4));
  sim_log("seeding %d of %d data of dimension %d, %s, %s, %s", c.K, c.N, c.D, c.init ? "k-means++" : "random selection", c.dist ? "L1" : "L2", dup ? "with duplicates" : "all different");
  Ins s = {0}; Rng r = rng_make(c.seed); double *x = malloc(8 * (size_t)(c.D * c.N)); void *p = in_bytes(&s, (size_t)(c.D * c.N) * (c.isd ? 8 : 4), c.isd ? 8 : 4); int cls[8], nd = 0, of[8];
  for (int i = 0; i < c.N; i++) { cls[i] = dup && i && rng_n(&r, 2) ? cls[rng_n(&r, (u32)i)] : nd++; for (int d = 0; d < c.D; d++) x[i * c.D + d] = (cls[i] * 7 % 5) * (d + 1) + .4 * cls[i] + (d ? .1 * cls[i] * cls[i] : 0); of[cls[i]] = i; }
  data_convert(x, p, (size_t)(c.D * c.N), c.isd); free(x); in_seal(&s);
  int n1[8] = {0}, n2[8][8] = {{0}}, mult[8] = {0}; for (int i = 0; i < c.N; i++) mult[cls[i]]++;
  VlKMeans *f = vl_kmeans_new(tp(c.isd), c.dist ? VlDistanceL1 : VlDistanceL2); rand_put(c.rnd);
  for (int t = 0; t < R; t++) {
    vl_kmeans_reset(f); if (c.init) vl_kmeans_init_centers_plus_plus(f, p, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); else vl_kmeans_init_centers_with_rand_data(f, p, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K);
    const void *cs = vl_kmeans_get_centers(f); int seen[8] = {0}, first = -1, second = -1; if ((int)vl_kmeans_get_num_centers(f) != c.K) sim_violation("seeding", "%d centers, %d requested", (int)vl_kmeans_get_num_centers(f), c.K);
    for (int k = 0; k < c.K; k++) { int q = -1; for (int j = 0; j < nd && q < 0; j++) { int same = 1; for (int d = 0; d < c.D; d++) same &= at(cs, (size_t)(k * c.D + d), c.isd) == at(p, (size_t)(of[j] * c.D + d), c.isd); if (same) q = j; } if (q < 0) sim_violation("seeding", "seeding %d: center %d is none of the data", t + 1, k); if (seen[q]++ && nd >= c.K) sim_violation("seeding", "seeding %d: center %d repeats an earlier one although %d different data exist for %d centers", t + 1, k, nd, c.K); if (k == 0) first = q; if (k == 1) second = q; }
    n1[first]++; if (second >= 0) n2[first][second]++;
  }
  double X = 0; int df = -1; for (int j = 0; j < nd; j++) { double e = (double)R * mult[j] / c.N; X += (n1[j] - e) * (n1[j] - e) / e; df++; } if (X > df + 12 * sqrt(2. * (df + 1)) + 40) sim_violation("seeding", "the first centers are not drawn uniformly: %d, %d, %d ... times in %d, chi-square %.1f with %d degrees", n1[0], n1[1], n1[2], R, X, df);
  if (c.init && c.K > 1) for (int i = 0; i < nd; i++) { double sum = 0, w[8]; for (int j = 0; j < nd; j++) { w[j] = mult[j] * kdist(&c, p, (size_t)of[i], p, (size_t)of[j]); sum += w[j]; } if (sum <= 0 || n1[i] < 20) continue; X = 0; df = 0; for (int j = 0; j < nd; j++) { double e = n1[i] * w[j] / sum; if (j == i) { continue; } if (e < 1) { if (n2[i][j] > 25) X = 1e9; continue; } X += (n2[i][j] - e) * (n2[i][j] - e) / e; df++; } if (X > df + 12 * sqrt(2. * (df + 1)) + 60) sim_violation("seeding", "after datum %d, the second centers are not drawn in proportion to the distance: %d, %d, %d ... times in %d, chi-square %.1f with %d degrees", of[i], n2[i][0], n2[i][1], n2[i][2], n1[i], X, df); }
  vl_kmeans_delete(f); in_end(&s); sim_nontrivial();
}
static void c15_kmeans(void) {
  Km c; memset(&c, 0, sizeof c); c.isd = (int)ch(SW, 2); c.dist = (int)ch(SW, 2); c.D = 1 + (int)ch(SW, 8); c.N = 1 + (int)ch(SW, 70); c.K = 1 + (int)ch(SW, (u64)(c.N < 10 ? c.N : 10)); c.kind = (int)ch(SW, 4); c.algo = (int)ch(SW, 3); c.init = (int)ch(SW, 2); c.reps = 1 + (int)ch(SW, 4); c.iters = 1 + (int)ch(SW, 12);
  c.trees = 1 + (int)ch(SW, 3); c.comps = chance(SW, 1, 4) ? 1 + (int)ch(SW, 10) : 0; c.minvar = chance(SW, 1, 3) ? chd(SW, 0, .3) : chance(SW, 1, 2) ? 1e-4 : 0; c.seed = ch(SW, 1 << 24); c.rnd = ch(SS, 1 << 24);
  static const char *al[] = {"Lloyd", "Elkan", "ANN"}; char b[64]; snprintf(b, sizeof b, "jobs.kmeans %s", al[c.algo]); sim_stat(b, 1); sim_event(hash_bytes(&c, sizeof c, 3));
  sim_log("kmeans %s %s, %d data of dimension %d, kind %d, %d centers, initialization %d, %d repetitions, %d iterations, variation %g, %d comparisons, random state %llu", al[c.algo], c.dist ? "L1" : "L2", c.N, c.D, c.kind, c.K, c.init, c.reps, c.iters, c.minvar, c.comps, (unsigned long long)c.rnd);
  Ins s = {0}; Rng r = rng_make(c.seed); void *x = mk_data(&s, &r, c.D, c.N, c.kind, c.isd); in_seal(&s); char w[128];
  double scale = 0; for (int i = 0; i < c.N * c.D; i++) { double t = fabs(at(x, (size_t)i, c.isd)); if (t > scale) scale = t; } scale = c.dist ? scale * c.D : scale * scale * c.D; if (scale < 1e-30) scale = 1e-30;
  double tol = c.isd ? 1e-7 : 1e-3, Ez = tol * scale * c.N; /* allowance for rounding */
  VlKMeans *f = vl_kmeans_new(tp(c.isd), c.dist ? VlDistanceL1 : VlDistanceL2);
  /* the repetitions, one by one from the same state of the generator */
  double best = INFINITY, e; int empty, restarted = 0;
  rand_put(c.rnd);
  for (int k = 0; k < c.reps; k++) {
    km_set(f, &c, c.algo, 1, c.iters, c.minvar); e = vl_kmeans_cluster(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); if (e < best) best = e;
    if (e != vl_kmeans_get_energy(f)) sim_violation("energy", "cluster() returned %.17g, get_energy() %.17g", e, vl_kmeans_get_energy(f));
  }
  rand_put(c.rnd); km_set(f, &c, c.algo, c.reps, c.iters, c.minvar); e = vl_kmeans_cluster(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); sim_event((u64)(e * 1e6));
  if (e != vl_kmeans_get_energy(f)) sim_violation("energy", "cluster() returned %.17g, get_energy() %.17g", e, vl_kmeans_get_energy(f));
  if (e != best) sim_violation("repetitions", "energy %.17g after %d repetitions, the best of them alone has %.17g", e, c.reps, best);
  double E = km_check(&c, f, x, scale, "after clustering", &empty); int exact = c.algo != 2 || !c.comps;
  if (e < E - Ez || (exact && e > E + Ez)) sim_violation("energy", "%s: reported %.9g, the returned centers have %.9g", al[c.algo], e, E);
  /* more iterations from the same initialization never make it worse */
  double prev = INFINITY, first = 0; int T = 6;
  for (int t = 1; t <= T; t++) {
    rand_put(c.rnd); VlRand r0; if (c.init) vl_kmeans_init_centers_plus_plus(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); else vl_kmeans_init_centers_with_rand_data(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K);
    r0 = *vl_get_rand(); if (t == 1) { first = km_check(&c, f, x, scale, "after initialization", 0); *vl_get_rand() = r0; /* the check itself may draw numbers */ }
    km_set(f, &c, c.algo, 1, t, 0); e = vl_kmeans_refine_centers(f, x, (vl_size)c.N); if (!rand_same(&r0, vl_get_rand())) restarted = 1;
    E = km_check(&c, f, x, scale, "after refinement", &empty); snprintf(w, sizeof w, "%s, %d iterations", al[c.algo], t);
    if (e < E - Ez || (exact && e > E + Ez)) sim_violation("energy", "%s: reported %.9g, the returned centers have %.9g", w, e, E);
    if (exact && e > first + Ez) sim_violation("not-monotone", "%s: energy %.9g, initially %.9g", w, e, first);
    if (e > prev + Ez) sim_violation("not-monotone", "%s: energy %.9g, after one iteration less %.9g", w, e, prev);
    prev = e;
  }
  /* the same energies as textbook iterations from the same centers, up to each limit and for each criterion */
  if (c.isd && (c.kind == 0 || c.kind == 2) && exact) {
    rand_put(c.rnd); if (c.init) vl_kmeans_init_centers_plus_plus(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); else vl_kmeans_init_centers_with_rand_data(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K);
    double *i0 = in_d(&s, (size_t)(c.D * c.K)); memcpy(i0, vl_kmeans_get_centers(f), 8 * (size_t)(c.D * c.K)); in_seal(&s); double ref[12]; int ok = km_reference(&c, x, i0, 10, ref), cmp = 0;
    for (int t = 1; t <= 9; t++) {
      double mv = t == 9 && c.algo != 1 ? c.minvar : 0; int lim = t == 9 ? c.iters % 9 + 1 : t, lo = lim, hi = lim;
      if (mv > 0) { int z = 0; for (int k = 1; k <= lim && k < ok; k++) { double g = ref[0] - ref[k] > 0 ? (ref[k - 1] - ref[k]) / (ref[0] - ref[k]) : 0; if (fabs(g - mv) < 1e-6) { z = 1; break; } if (g < mv) { lo = hi = k; break; } } if (z) continue; }
      if (c.algo == 1) hi = lim + 1; /* Elkan's bounds are refreshed by a first update */
      if (hi >= ok) continue;
      vl_kmeans_set_centers(f, i0, (vl_size)c.D, (vl_size)c.K); if (memcmp(vl_kmeans_get_centers(f), i0, 8 * (size_t)(c.D * c.K))) sim_violation("model", "set_centers() and get_centers() differ");
      km_set(f, &c, c.algo, 1, lim, mv); e = vl_kmeans_refine_centers(f, x, (vl_size)c.N); cmp++; double tz = 1e-9 * scale * c.N;
      if (e > ref[lo] + tz || e < ref[hi] - tz) sim_violation("iterations", "%s limited to %d iterations and variation %g: energy %.12g, textbook iterations give %.12g after %d and %.12g after %d updates", al[c.algo], lim, mv, e, ref[lo], lo, ref[hi], hi);
    }
    if (cmp) sim_stat("runs_against_textbook_iterations", 1);
  }
  /* run to the end: a stationary point; exact algorithms take the same path */
  if (c.isd && (c.kind == 0 || c.kind == 2) && exact) {
    double fin[3] = {0}; int rs = restarted;
    for (int g = 0; g < 3; g++) {
      if (g == 2 && c.comps) { fin[2] = fin[0]; continue; }
      rand_put(c.rnd); if (c.init) vl_kmeans_init_centers_plus_plus(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K); else vl_kmeans_init_centers_with_rand_data(f, x, (vl_size)c.D, (vl_size)c.N, (vl_size)c.K);
      VlRand r0 = *vl_get_rand(); km_set(f, &c, g, 1, 300, 0); fin[g] = vl_kmeans_refine_centers(f, x, (vl_size)c.N); if (!rand_same(&r0, vl_get_rand())) rs = 1;
      E = km_check(&c, f, x, scale, "at the end", &empty); if (fabs(E - fin[g]) > Ez) sim_violation("energy", "%s at the end: reported %.12g, the returned centers have %.12g", al[g], fin[g], E);
      if (!empty && !rs) { km_set(f, &c, g, 1, 1, 0); e = vl_kmeans_refine_centers(f, x, (vl_size)c.N); if (e < fin[g] - Ez) sim_violation("not-converged", "%s ended at energy %.12g and one more iteration gives %.12g", al[g], fin[g], e); }
    }
    if (!rs && (fabs(fin[0] - fin[1]) > Ez || fabs(fin[0] - fin[2]) > Ez)) sim_violation("disagree", "from the same centers Lloyd ends at energy %.12g, Elkan at %.12g, ANN without limit at %.12g", fin[0], fin[1], fin[2]);
    sim_stat("runs_to_the_end", 1);
  }
  if (restarted) sim_stat("runs_with_restarted_centers", 1);
  if (empty) sim_stat("runs_with_empty_clusters", 1);
  vl_kmeans_delete(f); in_end(&s);
}
/* ------------------------------------------------------------------------------------------- C15: Gaussian mixtures */
static void gmm_check(VlGMM *f, const void *x, int N, double LL, const double *lb, const char *when) {
  int isd = vl_gmm_get_data_type(f) == VL_TYPE_DOUBLE, D = (int)vl_gmm_get_dimension(f), K = (int)vl_gmm_get_num_clusters(f); double tol = isd ? 1e-7 : 2e-3;
  const void *mu = vl_gmm_get_means(f), *cv = vl_gmm_get_covariances(f), *pr = vl_gmm_get_priors(f), *po = vl_gmm_get_posteriors(f); double sum = 0, lo = 0, hi = 0; 
  for (int k = 0; k < K; k++) { double p = at(pr, (size_t)k, isd); if (!(p >= 0 && p <= 1 + tol)) sim_violation("priors", "%s: prior %g", when, p); sum += p; }
  if (fabs(sum - 1) > tol) sim_violation("priors", "%s: the priors sum to %.9g", when, sum);
  for (int i = 0; i < K * D; i++) { double v = at(cv, (size_t)i, isd), b = lb[i % D]; if (!isd) b = (float)b; if (!(v >= b) || !isfinite(v)) sim_violation("bounds", "%s: covariance %.9g, lower bound %.9g", when, v, b); if (!isfinite(at(mu, (size_t)i, isd))) sim_violation("model", "%s: a mean is not finite", when); }
  double minlb = INFINITY; for (int i = 0; i < K * D; i++) if (at(cv, (size_t)i, isd) < minlb) minlb = at(cv, (size_t)i, isd);
  double amp = 0;
  for (int i = 0; i < N; i++) {
    double q[16], m = -INFINITY, s = 0, sl = 0; sum = 0; double big = 0;
    for (int k = 0; k < K; k++) {
      double g = 0, p = at(pr, (size_t)k, isd); for (int d = 0; d < D; d++) { double v = at(cv, (size_t)(k * D + d), isd), t = at(x, (size_t)(i * D + d), isd) - at(mu, (size_t)(k * D + d), isd); g += t * t / v + log(2 * VL_PI * v); }
      q[k] = p > 0 ? log(p) - .5 * g : -INFINITY; if (q[k] > m) m = q[k]; if (fabs(g) > big) big = fabs(g);
    }
    if (big > amp) amp = big;
    double sure = 0; for (int k = 0; k < K; k++) { double e = exp(q[k] - m); s += e; if (at(pr, (size_t)k, isd) >= 1.01e-6) sl += e; sure += e; }
    hi += m + log(s); lo += sl > 0 ? m + log(sl) : -INFINITY;
    for (int k = 0; k < K; k++) {
      double p = at(po, (size_t)(i * K + k), isd), want = exp(q[k] - m) / s; if (!(p >= 0 && p <= 1 + tol)) sim_violation("posteriors", "%s: posterior %g", when, p); sum += p;
      if (sl == s && fabs(p - want) > tol * (1 + big)) sim_violation("posteriors", "%s: datum %d: posterior %.9g, the returned model gives %.9g", when, i, p, want);
    }
    if (fabs(sum - 1) > tol) sim_violation("posteriors", "%s: the posteriors of datum %d sum to %.9g", when, i, sum);
  }
  double slack = tol * N * (1 + amp);
  if (!(LL >= lo - slack && LL <= hi + slack)) sim_violation("likelihood", "%s: reported %.9g, the returned model has %.9g", when, LL, hi);
}
static void c15_gmm(void) {
  int isd = (int)ch(SW, 2), D = 1 + (int)ch(SW, 7), K = 1 + (int)ch(SW, 6), N = K * 2 + (int)ch(SW, 50), kind = (int)ch(SW, 4), init = (int)ch(SW, 3), reps = 1 + (int)ch(SW, 4), iters = (int)ch(SW, 10), how = (int)ch(SW, 3), ownkm = (int)ch(SW, 2); u64 seed = ch(SW, 1 << 24), rnd = ch(SS, 1 << 24);
  sim_stat("jobs.gmm", 1); sim_event(mix64(seed, rnd)); sim_log("gmm, %d data of dimension %d, kind %d, %d modes, initialization %d, %d repetitions, %d iterations, random state %llu", N, D, kind, K, init, reps, iters, (unsigned long long)rnd);
  Ins s = {0}; Rng r = rng_make(seed); void *x = mk_data(&s, &r, D, N, kind, isd); double *lb = in_d(&s, (size_t)D); for (int d = 0; d < D; d++) lb[d] = how == 0 ? 1e-3 : (how == 1 ? .5 : .01) * (1 + rng_d(&r)); in_seal(&s);
  VlGMM *f = vl_gmm_new(tp(isd), (vl_size)D, (vl_size)K); VlKMeans *km = 0; vl_gmm_set_verbosity(f, mods_verbosity); vl_gmm_set_max_num_iterations(f, (vl_size)iters); vl_gmm_set_initialization(f, init == 0 ? VlGMMRand : init == 1 ? VlGMMKMeans : VlGMMCustom);
  if (how == 0) vl_gmm_set_covariance_lower_bound(f, 1e-3); else vl_gmm_set_covariance_lower_bounds(f, lb);
  if (init == 1 && ownkm) { km = vl_kmeans_new(tp(isd), VlDistanceL2); vl_kmeans_set_initialization(km, VlKMeansPlusPlus); vl_kmeans_set_max_num_iterations(km, 3); vl_gmm_set_kmeans_init_object(f, km); }
  size_t es = isd ? 8 : 4; void *m = mk_data(&s, &r, D, K, 0, isd), *cv = in_bytes(&s, es * (size_t)(D * K), es), *pr = in_bytes(&s, es * (size_t)K, es);
  { double c[64], q[8], t = 0; for (int i = 0; i < D * K; i++) c[i] = .02 + rng_d(&r); for (int i = 0; i < K; i++) t += q[i] = .2 + rng_d(&r); for (int i = 0; i < K; i++) q[i] /= t; data_convert(c, cv, (size_t)(D * K), isd); data_convert(q, pr, (size_t)K, isd); in_seal(&s); }
  double best = -INFINITY, LL; int n1 = init == 2 ? 1 : reps; rand_put(rnd); char w[64];
  for (int k = 0; k < n1; k++) {
    if (init == 2) { vl_gmm_set_means(f, m); vl_gmm_set_covariances(f, cv); vl_gmm_set_priors(f, pr); }
    vl_gmm_set_num_repetitions(f, 1); LL = vl_gmm_cluster(f, x, (vl_size)N); if (LL > best) best = LL; snprintf(w, sizeof w, "repetition %d alone", k + 1); gmm_check(f, x, N, LL, lb, w);
  }
  rand_put(rnd); if (init == 2) { vl_gmm_set_means(f, m); vl_gmm_set_covariances(f, cv); vl_gmm_set_priors(f, pr); }
  vl_gmm_set_num_repetitions(f, (vl_size)reps); LL = vl_gmm_cluster(f, x, (vl_size)N); sim_event((u64)(i64)(LL * 1e3));
  if (LL != vl_gmm_get_loglikelihood(f)) sim_violation("likelihood", "cluster() returned %.17g, get_loglikelihood() %.17g", LL, vl_gmm_get_loglikelihood(f));
  if (LL != best) sim_violation("repetitions", "likelihood %.17g after %d repetitions, the best of them alone has %.17g", LL, reps, best);
  snprintf(w, sizeof w, "after %d repetitions", reps); gmm_check(f, x, N, LL, lb, w);
  /* one more pass without iterations evaluates the model and changes nothing */
  vl_gmm_set_max_num_iterations(f, 0); double L2 = vl_gmm_em(f, x, (vl_size)N); if (L2 != LL) sim_violation("likelihood", "the model evaluated again on the same data has %.17g instead of %.17g", L2, LL);
  gmm_check(f, x, N, L2, lb, "evaluated again");
  int more = 1 + (int)ch(SW, 4); vl_gmm_set_max_num_iterations(f, (vl_size)more); L2 = vl_gmm_em(f, x, (vl_size)N); gmm_check(f, x, N, L2, lb, "after continuing");
  if (km) { vl_gmm_set_kmeans_init_object(f, 0); vl_kmeans_delete(km); }
  vl_gmm_delete(f); in_end(&s);
}
/* ------------------------------------------------------------------------------------------- C15: integer k-means and trees */
static u8 *data_u8(Ins *s, Rng *r, int dim, int n, int kind) { u8 *p = in_bytes(s, (size_t)(dim * n), 1); for (int i = 0; i < dim * n; i++) p[i] = (u8)(kind == 1 ? rng_n(r, 3) * 100 : kind == 2 ? (u32)(i / dim) % 4 * 60 + rng_n(r, 12) : kind == 3 ? 255 * rng_n(r, 2) : rng_n(r, 256)); return p; }
static i64 idist(const vl_ikmacc_t *c, const u8 *x, int M) { i64 t = 0; for (int d = 0; d < M; d++) { i64 u = (i64)x[d] - c[d]; t += u * u; } return t; }
static i64 nearest(VlIKMFilt *f, const u8 *x, int M) { i64 m = INT64_MAX; for (vl_size k = 0; k < vl_ikm_get_K(f); k++) { i64 t = idist(vl_ikm_get_centers(f) + k * (vl_size)M, x, M); if (t < m) m = t; } return m; }
static void walk(VlHIKMTree *t, VlHIKMNode *n, const u8 *x, int M, const vl_uint32 *path, int depth, int total) {
  if (vl_ikm_get_K(n->filter) == 0) return; /* a node without training data has no centers */
  vl_uint32 k = path[0]; if (k >= vl_ikm_get_K(n->filter)) sim_violation("path", "level %d: child %u of %d", depth, k, (int)vl_ikm_get_K(n->filter));
  if (idist(vl_ikm_get_centers(n->filter) + (vl_size)k * (vl_size)M, x, M) != nearest(n->filter, x, M)) sim_violation("path", "level %d: descends to a center which is not the nearest", depth);
  if (depth + 1 < total && n->children && n->children[k]) walk(t, n->children[k], x, M, path + 1, depth + 1, total);
}
static void c15_ikm(void) {
  int M = 1 + (int)ch(SW, 10), N = 1 + (int)ch(SW, 60), K = 1 + (int)ch(SW, (u64)(N < 10 ? N : 10)), kind = (int)ch(SW, 4), init = (int)ch(SW, 2), iters = 1 + (int)ch(SW, 20); u64 seed = ch(SW, 1 << 24), rnd = ch(SS, 1 << 24); Ins s = {0}; Rng r = rng_make(seed);
  sim_stat("jobs.ikmeans", 1); sim_event(mix64(seed, rnd)); sim_log("ikmeans, %d data of dimension %d, %d centers, initialization %d, %d iterations", N, M, K, init, iters);
  u8 *x = data_u8(&s, &r, M, N, kind); vl_ikmacc_t *c0 = in_bytes(&s, sizeof(vl_ikmacc_t) * (size_t)(M * K), sizeof(vl_ikmacc_t)); for (int i = 0; i < M * K; i++) c0[i] = rng_n(&r, 256); in_seal(&s);
  vl_uint32 *a = in_out(&s, 4 * (size_t)N, 4); double fin[2] = {0}, prev[2]; i64 ncen[2] = {0}; (void)ncen;
  for (int g = 0; g < 2; g++) {
    prev[g] = INFINITY; int changed = 1;
    for (int t = 1; t <= iters && t <= 8; t++) {
      VlIKMFilt *f = vl_ikm_new(g ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_ikm_set_verbosity(f, mods_verbosity); vl_ikm_set_max_niters(f, (vl_size)t); rand_put(rnd); if (init) vl_ikm_init(f, c0, (vl_size)M, (vl_size)K); else vl_ikm_init_rand_data(f, x, (vl_size)M, (vl_size)N, (vl_size)K);
      int err = vl_ikm_train(f, x, (vl_size)N); (void)err; (void)changed;
      if ((int)vl_ikm_get_K(f) != K || (int)vl_ikm_get_ndims(f) != M) sim_violation("model", "ikmeans: %d centers of dimension %d", (int)vl_ikm_get_K(f), (int)vl_ikm_get_ndims(f));
      vl_ikm_push(f, a, x, (vl_size)N); double E = 0;
      for (int i = 0; i < N; i++) {
        i64 m = nearest(f, x + i * M, M); if (a[i] >= (vl_uint32)K || idist(vl_ikm_get_centers(f) + a[i] * (vl_size)M, x + i * M, M) != m) sim_violation("assignment", "ikmeans %s: datum %d is not assigned to a nearest center", g ? "Elkan" : "Lloyd", i);
        vl_uint32 one = vl_ikm_push_one(vl_ikm_get_centers(f), x + i * M, (vl_size)M, (vl_size)K); if (one >= (vl_uint32)K || idist(vl_ikm_get_centers(f) + one * (vl_size)M, x + i * M, M) != m) sim_violation("assignment", "ikmeans push_one: datum %d is not assigned to a nearest center", i);
        E += (double)m;
      }
      for (int i = 0; i < M * K; i++) if (!init && (vl_ikm_get_centers(f)[i] < 0 || vl_ikm_get_centers(f)[i] > 255)) sim_violation("model", "ikmeans: center outside the range of the data");
      prev[g] = E; fin[g] = E; sim_event((u64)E); vl_ikm_delete(f);
    }
  }
  /* trees */
  int depth = 1 + (int)ch(SW, 3), Kt = 2 + (int)ch(SW, 3); if (N >= Kt) {
    VlHIKMTree *t = vl_hikm_new(ch(SW, 2) ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_hikm_set_max_niters(t, iters); rand_put(rnd); vl_hikm_init(t, (vl_size)M, (vl_size)Kt, (vl_size)depth); vl_hikm_train(t, x, (vl_size)N);
    int Q = 1 + (int)ch(SW, 30); u8 *q = data_u8(&s, &r, M, Q, ch(SW, 2) ? kind : 0); vl_uint32 *p = in_out(&s, 4 * (size_t)(Q * depth), 4); vl_hikm_push(t, p, q, (vl_size)Q); sim_stat("jobs.hikmeans", 1);
    for (int i = 0; i < Q; i++) walk(t, (VlHIKMNode *)vl_hikm_get_root(t), q + i * M, M, p + i * depth, 0, depth);
    sim_event(hash_bytes(p, 4 * (size_t)(Q * depth), 5)); vl_hikm_delete(t);
  }
  in_end(&s);
}
void run_C15(void) {
  Env e; env_draw(&e); env_use(&e); mods_verbosity = (int)ch(SE, 3); if (mods_verbosity > 1) mods_verbosity = 2;
  int k = (int)ch(SW, 11); if (k == 10) { c15_seeding(); return; } k /= 2; if (k < 2) c15_kmeans(); else if (k < 4) c15_gmm(); else c15_ikm();
  sim_nontrivial();
}

/* ------------------------------------------------------------------------------------------- C16 */
typedef struct {
  int solver, loss, dtype, map, abstract, D, N, weights, freq, max, cb, same; double lambda, B, rate, eps; u64 seed, rnd;
  double *phi; int dim; double *y, *w; void *x; VlSvmDataset *ds; VlHomogeneousKernelMap *hom; Ins s;
  int calls, nested; long lastit; double lastdual; u64 visits[32]; int status, viol; VlSvm *svm;
} Svm;
static Svm *cur;
static double svm_inner(const void *d, vl_uindex i, double *m) { const Svm *c = d; double t = 0; for (int k = 0; k < c->dim; k++) t += c->phi[(size_t)i * (size_t)c->dim + (size_t)k] * m[k]; return t; }
static void svm_acc(const void *d, vl_uindex i, double *m, const double a) { const Svm *c = d; for (int k = 0; k < c->dim; k++) m[k] += a * c->phi[(size_t)i * (size_t)c->dim + (size_t)k]; }
/* watches the coordinate steps of SDCA with the logistic loss, which the library solves approximately (its worst error is 0.006) */
static double *lg_alpha, *lg_n2; static int lg_steps;
static void svm_acc_watch(const void *d, vl_uindex i, double *m, const double a) {
  const Svm *c = d; if (c->svm && m == (double *)vl_svm_get_model(c->svm)) {
    double p = c->w ? c->w[i] : 1, y = c->y[i], in = svm_inner(c, i, m) + vl_svm_get_bias(c->svm), q = p * lg_n2[i], b0 = y * lg_alpha[i] / p, delta = a * c->N * c->lambda, b1 = b0 + y * delta / p, lo = 0, hi = 1; lg_alpha[i] += delta; lg_steps++;
    for (int t = 0; t < 60; t++) { double z = (lo + hi) / 2; if (q * z + y * in - q * b0 + log(z / (1 - z)) >= 0) hi = z; else lo = z; }
    if (!(fabs(b1 - lo) < .012)) sim_violation("coordinate", "step of SDCA for datum %d (logistic): dual variable %.9g, optimal %.9g", (int)i, b1, lo);
  }
  svm_acc(d, i, m, a);
}
static double loss_of(int l, double in, double y) { double z = y * in; switch (l) { case VlSvmLossHinge: return z < 1 ? 1 - z : 0; case VlSvmLossHinge2: return z < 1 ? (1 - z) * (1 - z) : 0; case VlSvmLossL1: return fabs(y - in); case VlSvmLossL2: return (y - in) * (y - in); default: return z > 0 ? log1p(exp(-z)) : -z + log1p(exp(z)); } }
/* objective of a model; bi = bias as used by the decision function */
static double objective(const Svm *c, const double *m, double bi, double *reg, double *loss, double *maxs) {
  double b = c->B != 0 ? bi / c->B : 0, R = b * b, L = 0; for (int k = 0; k < c->dim; k++) R += m[k] * m[k]; R *= c->lambda * .5; if (maxs) *maxs = 1;
  for (int i = 0; i < c->N; i++) { double t = svm_inner(c, (vl_uindex)i, (double *)m) + bi, p = c->w ? c->w[i] : 1; if (p > 0) L += p * loss_of(c->loss, t, c->y[i]); if (maxs && fabs(t) > *maxs) *maxs = fabs(t); }
  L /= c->N; if (reg) *reg = R; if (loss) *loss = L; return R + L;
}
static void near(const char *what, const char *when, double got, double want, double size) { if (!(fabs(got - want) <= 1e-9 * (fabs(want) + size)) && !(got == want)) sim_violation("untruthful", "%s: %s %.15g reported, %.15g computed from the model", when, what, got, want); }
static void look(Svm *c, VlSvm *f, const char *when) {
  VlSvmStatistics const *st = vl_svm_get_statistics(f); const double *m = vl_svm_get_model(f); double R, L, big, b = vl_svm_get_bias(f);
  if (c->solver == 0 && (c->loss == VlSvmLossL2 || c->loss == VlSvmLossHinge2)) { /* SGD may diverge when the gradient is unbounded */
    int bad = !isfinite(b) || fabs(b) > 1e60; for (int k = 0; k < c->dim; k++) if (!isfinite(m[k]) || fabs(m[k]) > 1e60) bad = 1;
    if (bad) { sim_stat("svm.diverged", 1); return; }
  }
  for (int k = 0; k < c->dim; k++) if (!isfinite(m[k])) sim_violation("model", "%s: the model is not finite", when);
  if (!isfinite(b)) sim_violation("model", "%s: the bias is not finite", when);
  double o = objective(c, m, b, &R, &L, &big); near("regularizer", when, st->regularizer, R, 1e-3 * (1 + o)); near("loss", when, st->loss, L, big * big); near("objective", when, st->objective, o, big * big);
  const double *sc = vl_svm_get_scores(f); for (int i = 0; i < c->N; i++) if (!c->w || c->w[i] > 0) near("score", when, sc[i], svm_inner(c, (vl_uindex)i, (double *)m) + b, big);
  if (c->solver == 1) {
    double tol = 1e-9 * (1 + fabs(o) + big * big); near("duality gap", when, st->dualityGap, st->objective - st->dualObjective, big * big);
    if (st->dualObjective > o + tol) sim_violation("duality", "%s: dual objective %.15g above the objective %.15g", when, st->dualObjective, o);
    double *z = calloc((size_t)c->dim, 8), zero = objective(c, z, 0, 0, 0, 0); free(z); if (st->dualObjective > zero + tol) sim_violation("duality", "%s: dual objective %.15g above the objective %.15g of the zero model", when, st->dualObjective, zero);
  }
}
static void diag(VlSvm *f, void *data) {
  Svm *c = data; VlSvmStatistics const *st = vl_svm_get_statistics(f); char w[80]; snprintf(w, sizeof w, "callback %d, iteration %lld", c->calls + 1, (long long)st->iteration);
  if (f != c->svm) sim_violation("callback", "%s: called with another machine", w);
  if (c->solver != 2) {
    long it = (long)st->iteration + 1; if (it <= c->lastit) sim_violation("callback", "%s: earlier callback at %ld", w, c->lastit - 1);
    if (it != c->max && (it % c->freq) != 0) sim_violation("callback", "%s: not a multiple of %d", w, c->freq);
    if (it - c->lastit > c->freq) sim_violation("callback", "%s: %ld iterations since the previous one, every %d requested", w, it - c->lastit, c->freq);
    if (it > c->max) sim_violation("limit", "%s: beyond the limit of %d iterations", w, c->max);
    if ((long)st->epoch != (long)st->iteration / c->N) sim_violation("callback", "%s: epoch %lld with %d data", w, (long long)st->epoch, c->N);
    if (c->calls && c->status != VlSvmStatusTraining) sim_violation("callback", "%s: training went on after it had ended", w);
    c->lastit = it;
  }
  look(c, f, w);
  if (c->solver == 1) { if (c->loss != VlSvmLossLogistic /* its coordinate step is solved approximately, by design */ && st->dualObjective < c->lastdual - 1e-9 * (1 + fabs(c->lastdual))) sim_violation("dual-decreases", "%s: dual objective %.15g, previously %.15g", w, st->dualObjective, c->lastdual); c->lastdual = st->dualObjective; }
  c->status = st->status; c->calls++; sim_event((u64)st->iteration); paint_stack();
  if (c->nested) { c->nested = 0; /* the callback may use the library, including another machine */
    double xx[4] = {1, .5, -1, -.25}, yy[2] = {1, -1}; VlSvm *g = vl_svm_new(VlSvmSolverSdca, xx, 2, 2, yy, .1); VlRand keep = *vl_get_rand(); vl_svm_set_max_num_iterations(g, 7); vl_svm_train(g); vl_svm_delete(g); *vl_get_rand() = keep; }
}
static VlSvm *svm_make(Svm *c, int solver, int abstract) {
  VlSvmSolverType t = solver == 0 ? VlSvmSolverSgd : solver == 1 ? VlSvmSolverSdca : VlSvmSolverNone; VlSvm *f;
  if (abstract) { f = vl_svm_new_with_abstract_data(t, c, (vl_size)c->dim, (vl_size)c->N, c->y, c->lambda); vl_svm_set_data_functions(f, svm_inner, svm_acc); }
  else if (c->map || !c->dtype || ((c->seed >> 3) & 1)) f = vl_svm_new_with_dataset(t, c->ds, c->y, c->lambda);
  else f = vl_svm_new(t, c->x, (vl_size)c->D, (vl_size)c->N, c->y, c->lambda);
  if ((int)vl_svm_get_dimension(f) != c->dim || (int)vl_svm_get_num_data(f) != c->N) sim_violation("model", "dimension %d of %d data, expected %d of %d", (int)vl_svm_get_dimension(f), (int)vl_svm_get_num_data(f), c->dim, c->N);
  vl_svm_set_loss(f, (VlSvmLossType)c->loss); vl_svm_set_max_num_iterations(f, (vl_size)c->max); vl_svm_set_diagnostic_frequency(f, (vl_size)c->freq); vl_svm_set_epsilon(f, c->eps); vl_svm_set_bias_multiplier(f, c->B); vl_svm_set_bias_learning_rate(f, c->rate); vl_svm_set_weights(f, c->w);
  return f;
}
/* the same training done from the definitions; 0 = cannot be decided (rounding decides which side of a kink is taken, or amplified) */
static int svm_reference(const Svm *c, const double *start, double startb, u64 rnd, long iters, double *m, double *b) {
  memcpy(m, start, 8 * (size_t)c->dim); double B = c->B, bi = B != 0 ? startb / B : 0, *n2 = calloc((size_t)c->N, 8), *al = calloc((size_t)c->N, 8); vl_index *perm = calloc((size_t)c->N, sizeof *perm); int sure = 1; rand_put(rnd);
  for (int i = 0; i < c->N; i++) { perm[i] = i; for (int k = 0; k < c->dim; k++) { double v = c->phi[(size_t)i * (size_t)c->dim + (size_t)k]; n2[i] += v * v; } n2[i] = (n2[i] + B * B) / (c->lambda * c->N); }
  double t0 = fmax(2, ceil(1 / c->lambda)), amp = 1;
  for (long t = 0; t < iters && sure; t++) {
    if (t % c->N == 0) vl_rand_permute_indexes(vl_get_rand(), perm, (vl_size)c->N);
    int i = (int)perm[t % c->N]; double p = c->w ? c->w[i] : 1, y = c->y[i], in = svm_inner(c, (vl_uindex)i, m) + bi * B, g = 0; if (!(fabs(in) < 1e4)) sure = 0;
    if (c->solver == 1) {
      if (p > 0) { double a = al[i] / p, q = p * n2[i], d; switch (c->loss) { case VlSvmLossHinge: d = y * fmax(0, fmin(1, y * ((y - in) / q + a))) - a; break; case VlSvmLossHinge2: d = y * fmax(0, y * ((y - in - a / 2) / (q + .5) + a)) - a; break; case VlSvmLossL1: d = fmax(-1, fmin(1, (y - in) / q + a)) - a; break; case VlSvmLossL2: d = (y - in - a / 2) / (q + .5); break; default: d = 0; sure = 0; }
        if (!isfinite(d)) sure = 0; d *= p; al[i] += d; g = d / (c->N * c->lambda); svm_acc(c, (vl_uindex)i, m, g); bi += B * g; }
    } else {
      switch (c->loss) { case VlSvmLossHinge: if (fabs(y * in - 1) < 1e-7) sure = 0; g = y * in < 1 ? -y : 0; break; case VlSvmLossHinge2: g = y * in < 1 ? 2 * (in - y) : 0; break; case VlSvmLossL1: if (fabs(y - in) < 1e-7) sure = 0; g = y > in ? -1 : 1; break; case VlSvmLossL2: g = 2 * (in - y); break; default: g = -y / (1 + exp(y * in)); }
      double rate = 1 / (c->lambda * ((double)t + t0)), br = rate * c->rate; if (c->loss == VlSvmLossHinge2 || c->loss == VlSvmLossL2) { double z = rate * 2 * p * n2[i] * c->lambda * c->N - 1; if (z > 1 && (amp *= z) > 1e6) sure = 0; } g *= fmax(0, p); for (int k = 0; k < c->dim; k++) m[k] *= 1 - c->lambda * rate; svm_acc(c, (vl_uindex)i, m, -g * rate); bi = bi * (1 - c->lambda * br) - B * g * br;
    }
  }
  *b = bi * B; free(n2); free(al); free(perm); return sure;
}
static void svm_begin(Svm *c, VlSvm *f, int withcb) { c->svm = f; c->calls = 0; c->lastit = 0; c->lastdual = -INFINITY; c->status = 0; if (withcb) vl_svm_set_diagnostic_function(f, diag, c); else vl_svm_set_diagnostic_function(f, 0, 0); }
static void svm_end(Svm *c, VlSvm *f, int withcb, const char *when) {
  VlSvmStatistics const *st = vl_svm_get_statistics(f); look(c, f, when);
  if (c->solver == 2) { if (st->status != VlSvmStatusConverged || (withcb && c->calls != 1)) sim_violation("status", "%s: evaluation ended with status %d after %d callbacks", when, st->status, c->calls); return; }
  long it = (long)st->iteration + 1; if (it > c->max) sim_violation("limit", "%s: %ld iterations, the limit is %d", when, it, c->max);
  if (st->status == VlSvmStatusTraining) sim_violation("status", "%s: training ended with the status of training", when);
  if (st->status == VlSvmStatusMaxNumIterationsReached && it != c->max) sim_violation("status", "%s: reports the iteration limit %d after %ld iterations", when, c->max, it);
  double crit = c->solver == 1 ? st->dualityGap : st->scoresVariation; if (st->status == VlSvmStatusConverged && !(crit < c->eps)) sim_violation("status", "%s: reports convergence with %.9g, tolerance %.9g", when, crit, c->eps);
  if (st->status != VlSvmStatusConverged && st->status != VlSvmStatusMaxNumIterationsReached) sim_violation("status", "%s: status %d", when, st->status);
  if (it < c->max && st->status != VlSvmStatusConverged) sim_violation("status", "%s: ended early without convergence", when);
  if (withcb && c->lastit != it) sim_violation("callback", "%s: the last callback was at iteration %ld, training ended at %ld", when, c->lastit - 1, it - 1);
  sim_stat(st->status == VlSvmStatusConverged ? "converged" : "iteration_limit", 1);
}
void run_C16(void) {
  static Svm C; Svm *c = &C; memset(c, 0, sizeof *c); Env e; env_draw(&e); env_use(&e); cur = c;
  c->solver = (int)ch(SW, 5); c->solver = c->solver < 2 ? 0 : c->solver < 4 ? 1 : 2; static const VlSvmLossType LT[5] = {VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL1, VlSvmLossL2, VlSvmLossLogistic}; c->loss = (int)LT[ch(SW, 5)];
  c->dtype = (int)ch(SW, 2); c->map = chance(SW, 1, 4); c->abstract = (int)ch(SW, 2); c->D = 1 + (int)ch(SW, 6); c->N = 1 + (int)ch(SW, 24); c->weights = (int)ch(SW, 3); c->freq = 1 + (int)ch(SW, 70); c->max = 1 + (int)ch(SW, 500); c->cb = (int)ch(SW, 2); c->nested = c->cb && chance(SW, 1, 4); c->same = chance(SW, 1, 3);
  c->lambda = pow(10, chd(SW, -3, .5)); c->B = ch(SW, 3) == 1 ? 0 : chance(SW, 1, 2) ? 1 : chd(SW, .1, 5); c->rate = ch(SW, 2) ? .01 : chd(SW, 0, 1); c->eps = chance(SW, 1, 4) ? 0 : pow(10, chd(SW, -5, -.5)); c->seed = ch(SW, 1 << 24); c->rnd = ch(SS, 1 << 24); int sep = (int)ch(SW, 3);
  static const char *sn[] = {"SGD", "SDCA", "none"}; char b[64]; snprintf(b, sizeof b, "jobs.svm %s loss %d", sn[c->solver], c->loss); sim_stat(b, 1); sim_event(hash_bytes(c, offsetof(Svm, phi), 9));
  sim_log("svm %s loss %d lambda %g bias %g/%g, %d data of dimension %d map %d, weights %d, frequency %d, limit %d, tolerance %g, random state %llu", sn[c->solver], c->loss, c->lambda, c->B, c->rate, c->N, c->D, c->map, c->weights, c->freq, c->max, c->eps, (unsigned long long)c->rnd);
  Rng r = rng_make(c->seed); double *x = malloc(8 * (size_t)(c->D * c->N)); c->y = in_d(&c->s, (size_t)c->N); c->w = c->weights ? in_d(&c->s, (size_t)c->N) : 0;
  for (int i = 0; i < c->N; i++) { if (c->same && i) { c->y[i] = c->y[0]; memcpy(x + i * c->D, x, 8 * (size_t)c->D); } else { c->y[i] = rng_n(&r, 2) ? 1 : -1; for (int k = 0; k < c->D; k++) x[i * c->D + k] = (rng_d(&r) - .5) * 2 + c->y[i] * .4 * sep; } if (c->w) c->w[i] = c->weights == 2 && rng_n(&r, 4) == 0 && i ? 0 : .1 + 2 * rng_d(&r); if (c->w && c->same) c->w[i] = c->w[0]; }
  if (c->map) for (int i = 0; i < c->N * c->D; i++) x[i] = fabs(x[i]);
  if (!c->same && c->N > 3 && rng_n(&r, 8) == 0) memset(x + c->D, 0, 8 * (size_t)c->D);
  c->x = in_bytes(&c->s, (size_t)(c->D * c->N) * (c->dtype ? 8 : 4), c->dtype ? 8 : 4); data_convert(x, c->x, (size_t)(c->D * c->N), c->dtype);
  int md = 1; if (c->map) { c->hom = vl_homogeneouskernelmap_new(VlHomogeneousKernelChi2, 1, (vl_size)(1 + c->seed % 2), -1, VlHomogeneousKernelMapWindowRectangular); md = (int)vl_homogeneouskernelmap_get_dimension(c->hom); }
  c->dim = c->D * md; c->phi = in_d(&c->s, (size_t)(c->dim * c->N));
  for (int i = 0; i < c->N * c->D; i++) { double v = at(c->x, (size_t)i, c->dtype); if (c->hom) { double t[8]; float tf[8]; if (c->dtype) { vl_homogeneouskernelmap_evaluate_d(c->hom, t, 1, v); for (int k = 0; k < md; k++) c->phi[i * md + k] = t[k]; } else { vl_homogeneouskernelmap_evaluate_f(c->hom, tf, 1, v); for (int k = 0; k < md; k++) c->phi[i * md + k] = tf[k]; } } else c->phi[i] = v; }
  free(x); in_seal(&c->s); c->ds = vl_svmdataset_new(tp(c->dtype), c->x, (vl_size)c->D, (vl_size)c->N); if (c->hom) vl_svmdataset_set_homogeneous_kernel_map(c->ds, c->hom);
  VlSvm *f = svm_make(c, c->solver, c->abstract);
  double *m0 = in_d(&c->s, (size_t)c->dim); memset(m0, 0, 8 * (size_t)c->dim); in_seal(&c->s); /* a model to evaluate or start from */
  if (c->solver == 2 || (c->solver == 0 && chance(SW, 1, 3))) { double *m = in_d(&c->s, (size_t)c->dim); for (int k = 0; k < c->dim; k++) m[k] = (rng_d(&r) - .5) * 3; in_seal(&c->s); double bb = rng_d(&r) - .5; vl_svm_set_model(f, m); vl_svm_set_bias(f, bb); if (memcmp(vl_svm_get_model(f), m, 8 * (size_t)c->dim)) sim_violation("model", "set_model() and get_model() differ"); near("bias", "after set_bias()", vl_svm_get_bias(f), c->B ? bb : 0, 1); }
  double *start = in_d(&c->s, (size_t)c->dim); memcpy(start, vl_svm_get_model(f), 8 * (size_t)c->dim); double startb = vl_svm_get_bias(f); in_seal(&c->s);
  rand_put(c->rnd); svm_begin(c, f, c->cb); vl_svm_train(f); svm_end(c, f, c->cb, "after training");
  VlSvmStatistics s1 = *vl_svm_get_statistics(f); double *m1 = in_d(&c->s, (size_t)c->dim); memcpy(m1, vl_svm_get_model(f), 8 * (size_t)c->dim); double b1 = vl_svm_get_bias(f); in_seal(&c->s); sim_event(hash_bytes(m1, 8 * (size_t)c->dim, 1));
  { int bad = !isfinite(b1) || fabs(b1) > 1e60; for (int k = 0; k < c->dim; k++) bad |= !isfinite(m1[k]) || fabs(m1[k]) > 1e60; if (bad) goto finish; } /* SGD diverged, see look() */
  if (c->solver < 2) {
    VlRand keep = *vl_get_rand(); double *rm = malloc(8 * (size_t)c->dim), rb, big = 1; int sure = svm_reference(c, start, startb, c->rnd, (long)s1.iteration + 1, rm, &rb); *vl_get_rand() = keep; for (int k = 0; k < c->dim; k++) if (fabs(rm[k]) > big) big = fabs(rm[k]);
    if (sure) { for (int k = 0; k < c->dim; k++) if (fabs(rm[k] - m1[k]) > 1e-6 * big) sim_violation("reference", "after %ld iterations component %d of the model is %.12g, from the definition %.12g", (long)s1.iteration + 1, k, m1[k], rm[k]); if (fabs(rb - b1) > 1e-6 * (big + fabs(rb))) sim_violation("reference", "after %ld iterations the bias is %.12g, from the definition %.12g", (long)s1.iteration + 1, b1, rb); sim_stat("runs_against_the_definition", 1); }
    free(rm);
  }
  if (c->solver == 1 && c->loss == VlSvmLossLogistic) {
    VlSvm *g = svm_make(c, 1, 1); vl_svm_set_data_functions(g, svm_inner, svm_acc_watch); lg_alpha = calloc((size_t)c->N, 8); lg_n2 = calloc((size_t)c->N, 8); lg_steps = 0; for (int i = 0; i < c->N; i++) { for (int k = 0; k < c->dim; k++) { double v = c->phi[(size_t)i * (size_t)c->dim + (size_t)k]; lg_n2[i] += v * v; } lg_n2[i] = (lg_n2[i] + c->B * c->B) / (c->lambda * c->N); }
    rand_put(c->rnd); svm_begin(c, g, 0); vl_svm_train(g); c->svm = 0; sim_stat("logistic steps watched", (u64)lg_steps); free(lg_alpha); free(lg_n2); vl_svm_delete(g);
  }
  /* looking on changes nothing: the same training without or with the callback, on the other data interface */
  { VlSvm *g = svm_make(c, c->solver, c->abstract); vl_svm_set_model(g, start); vl_svm_set_bias(g, startb); rand_put(c->rnd); svm_begin(c, g, !c->cb); vl_svm_train(g); svm_end(c, g, !c->cb, c->cb ? "trained without callback" : "trained with callback");
    if (memcmp(vl_svm_get_model(g), m1, 8 * (size_t)c->dim) || vl_svm_get_bias(g) != b1 || vl_svm_get_statistics(g)->iteration != s1.iteration) sim_violation("callback", "training with and without callback gives different models"); vl_svm_delete(g); }
  int resumed = (int)ch(SW, 2);
  if (c->solver == 1) {
    /* any model bounds the optimum from above, the dual objective from below */
    VlSvm *g = svm_make(c, 1, !c->abstract); int mx = c->max; double ep = c->eps; rand_put(c->rnd + 17); c->max = 3000; c->eps = 1e-9; vl_svm_set_max_num_iterations(g, 3000); vl_svm_set_epsilon(g, 1e-9); svm_begin(c, g, 0); vl_svm_train(g); svm_end(c, g, 0, "long training"); c->max = mx; c->eps = ep;
    double big, o1 = objective(c, m1, b1, 0, 0, &big), o2 = objective(c, vl_svm_get_model(g), vl_svm_get_bias(g), 0, 0, 0), tol = 1e-9 * (1 + big * big + fabs(o1)); VlSvmStatistics const *s2 = vl_svm_get_statistics(g);
    if (s1.dualObjective > o2 + tol || s2->dualObjective > o1 + tol) sim_violation("duality", "a dual objective (%.12g, %.12g) is above an objective (%.12g, %.12g)", s1.dualObjective, s2->dualObjective, o1, o2);
    if (s1.status == VlSvmStatusConverged && o1 - o2 > c->eps + tol) sim_violation("not-optimal", "converged to tolerance %.9g with objective %.12g, another model has %.12g", c->eps, o1, o2);
    if (c->max >= 0 && s2->status != VlSvmStatusConverged && isfinite(s2->dualityGap)) sim_stat("long_training_not_converged", 1);
    if (!isfinite(s2->dualityGap)) sim_stat("long_training_without_gap", 1);
    vl_svm_delete(g);
    if (resumed) { double d0 = s1.dualObjective; int n = (int)ch(SW, 3); for (int k = 0; k <= n; k++) { svm_begin(c, f, 1); c->lastdual = d0; vl_svm_train(f); svm_end(c, f, 1, "resumed"); d0 = vl_svm_get_statistics(f)->dualObjective; } sim_stat("resumed", 1); }
  } else if (c->solver == 0) {
    VlSvm *h = svm_make(c, 1, !c->abstract); vl_svm_set_max_num_iterations(h, 2000); int so = c->solver, mx = c->max; c->solver = 1; c->max = 2000; svm_begin(c, h, 0); vl_svm_train(h); look(c, h, "reference training"); c->solver = so; c->max = mx;
    double big, o1 = objective(c, m1, b1, 0, 0, &big); if (vl_svm_get_statistics(h)->dualObjective > o1 + 1e-9 * (1 + big * big + fabs(o1))) sim_violation("duality", "the dual objective %.12g is above the objective %.12g of the model found by SGD", vl_svm_get_statistics(h)->dualObjective, o1); vl_svm_delete(h);
    if (c->same && c->eps == 0) { /* all data are the same, so the order does not matter: stop and continue from the saved model, or go on */
      int n1 = 1 + (int)ch(SW, (u64)c->max); VlSvm *g = svm_make(c, 0, c->abstract); vl_svm_set_model(g, start); vl_svm_set_bias(g, startb); int mx2 = c->max; c->max = n1; vl_svm_set_max_num_iterations(g, (vl_size)n1); svm_begin(c, g, 0); vl_svm_train(g); svm_end(c, g, 0, "first part");
      if (n1 < mx2 && vl_svm_get_statistics(g)->status == VlSvmStatusMaxNumIterationsReached && s1.status == VlSvmStatusMaxNumIterationsReached) {
        VlSvm *k = svm_make(c, 0, c->abstract); vl_svm_set_model(k, vl_svm_get_model(g)); vl_svm_set_bias(k, vl_svm_get_bias(g)); vl_svm_set_iteration_number(k, (vl_uindex)n1); if ((int)vl_svm_get_iteration_number(k) != n1) sim_violation("resume", "iteration number %d set, %d read", n1, (int)vl_svm_get_iteration_number(k)); c->max = mx2 - n1; vl_svm_set_max_num_iterations(k, (vl_size)c->max); svm_begin(c, k, 0); vl_svm_train(k); svm_end(c, k, 0, "second part");
        double sz = 1e-300; for (int q = 0; q < c->dim; q++) if (fabs(m1[q]) > sz) sz = fabs(m1[q]);
        /* a loss with a kink may take the other side after rounding */
        int smooth = c->loss == VlSvmLossLogistic; /* and an unbounded gradient may amplify rounding */
        double rt = 1e-7;
        if (smooth) for (int q = 0; q < c->dim; q++) if (fabs(vl_svm_get_model(k)[q] - m1[q]) > rt * sz) sim_violation("resume", "continued after %d of %d iterations from the saved model, a component is %.9g instead of %.9g", n1, mx2, vl_svm_get_model(k)[q], m1[q]);
        if (smooth) { sim_stat("resumed", 1); if (fabs(vl_svm_get_bias(k) - b1) > rt * (fabs(b1) + sz)) sim_violation("resume", "continued after %d of %d iterations from the saved model, the bias is %.9g instead of %.9g", n1, mx2, vl_svm_get_bias(k), b1); }
        vl_svm_delete(k); }
      c->max = mx2; vl_svm_delete(g); }
  }
finish:
  vl_svm_delete(f); vl_svmdataset_delete(c->ds); if (c->hom) vl_homogeneouskernelmap_delete(c->hom); in_end(&c->s); sim_nontrivial();
}

/* ------------------------------------------------------------------------------------------- C17 */
#define NG 5
void run_C17(void) {
  static Mt ref[NG], sref[NG]; static u32 key[1600]; Env e; env_draw(&e); env_use(&e); Ins s = {0};
  int G = 1 + (int)ch(SW, NG), steps = 4 + (int)ch(SW, 40); VlRand *g[NG], *saved[NG]; int has[NG] = {0}; static const char *kn[] = {"init", "seed", "seed by array", "uint32", "uint64", "int31", "int63", "real1", "real2", "real3", "res53", "index", "burst", "permute", "save", "restore", "other work"};
  g[0] = vl_get_rand(); for (int i = 1; i < NG; i++) g[i] = in_out(&s, sizeof(VlRand), 8);
  for (int i = 0; i < NG; i++) saved[i] = in_out(&s, sizeof(VlRand), 8);
  for (int i = 0; i < G; i++) { int how = (int)ch(SW, 2); if (how || i == 0) { u32 v = (u32)ch(SW, (u64)1 << 32); vl_rand_seed(g[i], v); mt_seed(&ref[i], v); } else { vl_rand_init(g[i]); mt_seed(&ref[i], 5489); } }
  sim_log("%d generators, %d steps", G, steps); u64 h = 0;
  for (int t = 0; t < steps; t++) {
    int i = (int)ch(SS, (u64)G), k = (int)ch(SW, 17); u64 a = ch(SW, 1u << 20); Mt *m = &ref[i]; VlRand *f = g[i]; h = mix64(h, (u64)(i * 32 + k)); h = mix64(h, a); sim_log(" generator %d: %s (%llu)", i, kn[k], (unsigned long long)a);
    char b[40]; snprintf(b, sizeof b, "jobs.%s", kn[k]); sim_stat(b, 1); if (G > 1) sim_nontrivial();
#define BAD(fmt, ...) sim_violation("stream", "generator %d, %s: " fmt, i, kn[k], __VA_ARGS__)
#define EQ(got, want) do { double p_ = (got), q_ = (want); if (p_ != q_) BAD("%.17g drawn, %.17g expected", p_, q_); } while (0)
#define EQI(got, want) do { u64 p_ = (u64)(got), q_ = (u64)(want); if (p_ != q_) BAD("%llu drawn, %llu expected", (unsigned long long)p_, (unsigned long long)q_); } while (0)
    switch (k) {
      case 0: vl_rand_init(f); mt_seed(m, 5489); break;
      case 1: { u32 v = (u32)(a * 2654435761u) ^ (u32)ch(SW, 3); vl_rand_seed(f, v); mt_seed(m, v); break; }
      case 2: { int n = 1 + (int)(a % 4 == 0 ? a / 4 % 1500 : a / 4 % 8); if (a % 16 == 3) n = 623 + (int)(a / 16 % 3); Rng r = rng_make(a); for (int q = 0; q < n; q++) key[q] = (u32)rng_next(&r) >> (a & 1 ? 20 : 0); vl_rand_seed_by_array(f, key, (vl_size)n); mt_array(m, key, n); break; }
      case 3: EQI(vl_rand_uint32(f), mt_next(m)); break;
      case 4: { u64 x = mt_next(m); x = x << 32 | mt_next(m); EQI(vl_rand_uint64(f), x); break; }
      case 5: { i64 v = vl_rand_int31(f); if (v < 0 || v > 0x7fffffff) BAD("%lld out of range", (long long)v); EQI(v, mt_next(m) >> 1); break; }
      case 6: { u64 x = mt_next(m); x = x << 32 | mt_next(m); i64 v = vl_rand_int63(f); if (v < 0) BAD("%lld out of range", (long long)v); EQI(v, x >> 1); break; }
      case 7: { double v = vl_rand_real1(f); if (!(v >= 0 && v <= 1)) BAD("%g out of range", v); EQ(v, mt_next(m) * (1.0 / 4294967295.0)); break; }
      case 8: { double v = vl_rand_real2(f); if (!(v >= 0 && v < 1)) BAD("%g out of range", v); EQ(v, mt_next(m) * (1.0 / 4294967296.0)); break; }
      case 9: { double v = vl_rand_real3(f); if (!(v > 0 && v < 1)) BAD("%g out of range", v); EQ(v, (mt_next(m) + .5) * (1.0 / 4294967296.0)); break; }
      case 10: { u32 p = mt_next(m) >> 5, q = mt_next(m) >> 6; double v = vl_rand_res53(f); if (!(v >= 0 && v < 1)) BAD("%g out of range", v); EQ(v, (p * 67108864.0 + q) / 9007199254740992.0); break; }
      case 11: { static const u64 big[] = {0xffffffffu, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 1, 2}; u64 rg = a % 8 == 0 ? big[a / 8 % 6] : 1 + a / 8 % 5000; u64 v = vl_rand_uindex(f, rg); if (v >= rg) BAD("%llu not below %llu", (unsigned long long)v, (unsigned long long)rg); u64 x = mt_next(m); if (rg > 0xffffffffu) x = x << 32 | mt_next(m); EQI(v, x % rg); break; }
      case 12: { int n = (int)(a % 1500); for (int q = 0; q < n; q++) { u32 p = vl_rand_uint32(f), w = mt_next(m); if (p != w) BAD("draw %d: %u, expected %u", q, p, w); } sim_stat("draws", (u64)n); break; }
      case 13: { int n = (int)(a % 300); vl_index *x = in_out(&s, sizeof(vl_index) * (size_t)(n ? n : 1), 8), *y = malloc(sizeof(vl_index) * (size_t)(n + 1)); char *seen = calloc((size_t)n + 1, 1); for (int q = 0; q < n; q++) y[q] = x[q] = q; vl_rand_permute_indexes(f, x, (vl_size)n);
        for (int q = 0; q < n; q++) { if (x[q] < 0 || x[q] >= n || seen[x[q]]) BAD("of %d: not a permutation", n); seen[x[q]] = 1; }
        for (int q = n - 1; q > 0; q--) { u32 j = mt_next(m) % (u32)(q + 1); vl_index z = y[q]; y[q] = y[j]; y[j] = z; }
        for (int q = 0; q < n; q++) if (x[q] != y[q]) BAD("of %d: element %d is %lld, the draws determine %lld", n, q, (long long)x[q], (long long)y[q]);
        free(y); free(seen); if (s.k > INS_MAX - 4) t = steps; break; }
      case 14: memcpy(saved[i], f, sizeof(VlRand)); sref[i] = *m; has[i] = 1; break;
      case 15: { int j = (int)(a % (u64)G); if (has[j]) { memcpy(f, saved[j], sizeof(VlRand)); *m = sref[j]; } break; }
      default: { /* library operations draw from this thread's generator only */
        VlRand keep = *vl_get_rand(); Plan op, up; const Mod *md = mod_draw(M_RAND); md->plan_obj(&op); md->plan_use(&op, &up); Out o; out_init(&o); void *ob = md->make(&op); md->use(ob, &op, &up, &o); md->drop(ob); out_free(&o); *vl_get_rand() = keep; break; }
    }
  }
  for (int i = 0; i < G; i++) for (int q = 0; q < 3; q++) { u32 p = vl_rand_uint32(g[i]), w = mt_next(&ref[i]); if (p != w) sim_violation("stream", "generator %d at the end: %u, expected %u", i, p, w); h = mix64(h, p); }
  sim_event(h); in_end(&s);
}
