/* Forests of kd-trees against a brute force search (C08). */
#include "jobs.h"
#include "props_kd.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/generic.h>
#include <vl/random.h>

static double at(const void *p, size_t i, int isd) { return isd ? ((const double *)p)[i] : ((const float *)p)[i]; }
double kdx_dist(const Kdx *k, const void *q, size_t i) { double t = 0; for (int d = 0; d < k->D; d++) { double u = at(q, (size_t)d, k->isd) - at(k->x, i * (size_t)k->D + (size_t)d, k->isd); t += k->l1 ? fabs(u) : u * u; } return t; }
static int cmpd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
static void gen_points(Rng *r, double *x, int D, int N, int kind) {
  if (kind < 4) { gen_data_d(r, x, D, N, kind); return; }
  if (kind == 4) { for (int i = 0; i < N * D; i++) x[i] = (double)rng_n(r, 3) - 1; return; } /* a small grid: many equal points */
  if (kind == 5) { for (int i = 0; i < N; i++) for (int d = 0; d < D; d++) x[i * D + d] = d == 0 ? (double)(i % 7) * 1e3 : rng_d(r) * 1e-3; return; } /* one dominant direction */
  if (kind == 6) { for (int i = 0; i < N; i++) { double t = rng_d(r) * rng_d(r) * 50; for (int d = 0; d < D; d++) x[i * D + d] = t * (d + 1) + 1e-6 * rng_d(r); } return; } /* along a line */
  for (int i = 0; i < N * D; i++) x[i] = (rng_n(r, 5) ? 1 : 200) * (rng_d(r) - .5) + 1000; /* far from the origin, outliers */
}
void kdx_draw(Kdx *k) {
  memset(k, 0, sizeof *k); k->isd = (int)ch(SW, 2); k->l1 = (int)ch(SW, 2); k->D = 1 + (int)ch(SW, 9); k->N = 1 + (int)ch(SW, chance(SW, 1, 4) ? 300 : 60); if (chance(SW, 1, 60)) k->N = 1000 + (int)ch(SW, 400); k->trees = 1 + (int)ch(SW, 5); k->mean = (int)ch(SW, 2); k->kind = (int)ch(SW, 8); k->seed = ch(SW, 1 << 24); k->rnd = ch(SS, 1 << 24);
  sim_log("forest of %d trees, %s, %s, %s threshold, %d points of dimension %d, kind %d, random state %llu", k->trees, k->isd ? "double" : "float", k->l1 ? "L1" : "L2", k->mean ? "mean" : "median", k->N, k->D, k->kind, (unsigned long long)k->rnd);
  sim_event(hash_bytes(k, sizeof *k, 5)); sim_stat(k->l1 ? "jobs.forest L1" : "jobs.forest L2", 1);
}
void kdx_build(Kdx *k) {
  Rng r = rng_make(k->seed); double *t = malloc(8 * (size_t)k->D * (size_t)k->N); gen_points(&r, t, k->D, k->N, k->kind); size_t n = (size_t)k->D * (size_t)k->N;
  k->x = in_bytes(&k->s, n * (k->isd ? 8 : 4), k->isd ? 8 : 4); data_convert(t, k->x, n, k->isd); free(t); in_seal(&k->s);
  VlRand *g = vl_get_rand(); vl_rand_seed(g, (vl_uint32)(k->rnd * 2654435761u + 1)); for (u32 i = (u32)(k->rnd % 5) * 100; i; i--) vl_rand_uint32(g);
  k->f = vl_kdforest_new(k->isd ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT, (vl_size)k->D, (vl_size)k->trees, k->l1 ? VlDistanceL1 : VlDistanceL2);
  vl_kdforest_set_thresholding_method(k->f, k->mean ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_build(k->f, (vl_size)k->N, k->x);
}
void kdx_drop(Kdx *k) { in_check(&k->s); vl_kdforest_delete(k->f); in_end(&k->s); }
/* nq queries: data points, near data points, elsewhere in the range, and far away */
void *kdx_queries(Kdx *k, Ins *s, u64 seed, int nq, double *vals) {
  Rng r = rng_make(seed); size_t n = (size_t)nq * (size_t)k->D; double *t = malloc(8 * n);
  for (int i = 0; i < nq; i++) { u32 w = rng_n(&r, 5), p = rng_n(&r, (u32)k->N), p2 = rng_n(&r, (u32)k->N); for (int d = 0; d < k->D; d++) { double v = at(k->x, (size_t)p * (size_t)k->D + (size_t)d, k->isd), v2 = at(k->x, (size_t)p2 * (size_t)k->D + (size_t)d, k->isd); double u = rng_d(&r);
    t[i * k->D + d] = w == 0 ? v : w == 1 ? v + (u - .5) * .1 * (fabs(v - v2) + 1e-3) : w == 2 ? v + u * (v2 - v) : w == 3 ? floor(v + .5) + (double)rng_n(&r, 3) - 1 : v + (u - .5) * 20 * (fabs(v2 - v) + 1); } }
  void *q = in_bytes(s, n * (k->isd ? 8 : 4), k->isd ? 8 : 4); data_convert(t, q, n, k->isd); (void)vals; free(t); return q;
}
/* the m neighbours found for q (distance < 0: not known); lim = 0: must be the nearest ones; ncmp < 0: not known */
void kdx_check(const Kdx *k, const char *who, const void *q, int m, i64 (*idx)(const void *, int), double (*dst)(const void *, int), const void *res, int lim, i64 ncmp) {
  double *d = malloc(8 * (size_t)k->N), scale = 1e-30, tol; int found = 0, exact = lim == 0 || lim >= k->N; char seen[1500] = {0};
  for (int i = 0; i < k->N; i++) { d[i] = kdx_dist(k, q, (size_t)i); if (d[i] > scale) scale = d[i]; }
  double big = 0; for (int c = 0; c < k->D; c++) { double v = fabs(at(q, (size_t)c, k->isd)); if (v > big) big = v; } for (int i = 0; i < k->N * k->D; i++) { double v = fabs(at(k->x, (size_t)i, k->isd)); if (v > big) big = v; }
  /* rounding: of each difference, and of the sum of the terms */
  double eps = k->isd ? 2e-16 : 1.2e-7; (void)big;
  double prev = -1;
  for (int j = 0; j < m; j++) {
    i64 ix = idx(res, j); double v = dst(res, j);
    if (ix < 0) { for (int t = j + 1; t < m; t++) if (idx(res, t) >= 0) sim_violation("neighbors", "%s: neighbour %d is missing but %d is there", who, j, t); break; }
    if (ix >= k->N) sim_violation("neighbors", "%s: neighbour %d is number %lld of %d points", who, j, (long long)ix, k->N);
    if (seen[ix]++) sim_violation("neighbors", "%s: point %lld is returned twice", who, (long long)ix);
    tol = 8 * eps * k->D * d[ix] + 1e-37; if (fabs(v - d[ix]) > tol) sim_violation("distance", "%s: neighbour %d, point %lld: distance %.9g returned, %.9g computed", who, j, (long long)ix, v, d[ix]);
    if (j && v < prev) sim_violation("order", "%s: neighbour %d at %.9g comes after %.9g", who, j, v, prev);
    prev = v; found++;
  }
  int most = m < k->N ? m : k->N;
  if (exact && found != most) sim_violation("neighbors", "%s: %d neighbours returned instead of %d", who, found, most);
  if (!exact && found != (most < lim ? most : lim)) { if (found > lim) sim_violation("limit", "%s: %d neighbours with %d comparisons allowed", who, found, lim); if (found < (most < lim ? most : lim)) sim_violation("neighbors", "%s: %d neighbours returned of %d points with %d comparisons allowed and %d wanted", who, found, k->N, lim, m); }
  if (ncmp >= 0) { if (lim && ncmp > lim) sim_violation("limit", "%s: %lld comparisons, %d allowed", who, (long long)ncmp, lim); if (ncmp < found || ncmp > k->N) sim_violation("comparisons", "%s: %lld comparisons reported for %d neighbours among %d points", who, (long long)ncmp, found, k->N); }
  if (exact) { double *o = malloc(8 * (size_t)k->N); memcpy(o, d, 8 * (size_t)k->N); qsort(o, (size_t)k->N, 8, cmpd);
    for (int j = 0; j < found; j++) { double v = d[idx(res, j)]; tol = 64 * eps * k->D * (fabs(o[j]) + 1e-3 * eps * scale) + 1e-37; if (v > o[j] + tol) sim_violation("not-nearest", "%s: neighbour %d of %d is point %lld at %.9g, the true one is at %.9g", who, j, m, (long long)idx(res, j), v, o[j]); }
    free(o); }
  free(d);
}
static i64 nb_i(const void *r, int j) { return (i64)((const VlKDForestNeighbor *)r)[j].index; }
static double nb_d(const void *r, int j) { return ((const VlKDForestNeighbor *)r)[j].distance; }
void kdx_check_nb(const Kdx *k, const char *who, const void *q, int m, const VlKDForestNeighbor *nb, int lim, i64 ncmp) { kdx_check(k, who, q, m, nb_i, nb_d, nb, lim, ncmp); }
typedef struct { const vl_uint32 *ix; const void *d; int isd; } Arr;
static i64 ar_i(const void *r, int j) { vl_uint32 v = ((const Arr *)r)->ix[j]; return v == (vl_uint32)-1 ? -1 : (i64)v; }
static double ar_d(const void *r, int j) { const Arr *a = r; return at(a->d, (size_t)j, a->isd); }
static const Kdx *ar_k; static const void *ar_q;
static double ar_d2(const void *r, int j) { return kdx_dist(ar_k, ar_q, ((const Arr *)r)->ix[j]); }
void kdx_check_batch(const Kdx *k, const void *q, int nq, int m, const vl_uint32 *ix, const void *dist, int lim, i64 ncmp) {
  size_t es = k->isd ? 8 : 4; char w[60];
  for (int i = 0; i < nq; i++) {
    const void *qi = (const char *)q + es * (size_t)k->D * (size_t)i; Arr a = {ix + (size_t)i * (size_t)m, dist ? (const char *)dist + es * (size_t)i * (size_t)m : 0, k->isd}; ar_k = k; ar_q = qi; snprintf(w, sizeof w, "query %d of %d of a batch", i, nq);
    if (!dist) { double p = -1; int n = 0; for (int j = 0; j < m; j++) { if (ar_i(&a, j) < 0) break; if (ar_i(&a, j) >= k->N) sim_violation("neighbors", "%s: index %lld of %d points", w, (long long)ar_i(&a, j), k->N); double v = ar_d2(&a, j); if (v < p * (1 - 1e-5) - 1e-30) sim_violation("order", "%s: neighbour %d at %.9g comes after %.9g", w, j, v, p); p = v; n++; } if (lim == 0 || lim >= k->N) if (n != (m < k->N ? m : k->N)) sim_violation("neighbors", "%s: %d neighbours", w, n); continue; }
    kdx_check(k, w, qi, m, ar_i, ar_d, &a, lim, -1);
  }
  if (lim && ncmp > (i64)lim * nq) sim_violation("limit", "batch of %d: %lld comparisons, %d allowed for each", nq, (long long)ncmp, lim);
  if (ncmp < 0 || ncmp > (i64)k->N * nq) sim_violation("comparisons", "batch of %d among %d points: %lld comparisons reported", nq, k->N, (long long)ncmp);
}
#ifndef SIM_B
void run_C08(void) {
  Env e; env_draw(&e); env_use(&e); mem_use_allocator(OWN_A); u64 mark = mem_mark(); Kdx k; kdx_draw(&k); kdx_build(&k);
  VlKDForestSearcher *se[4]; int ns = 0, steps = 1 + (int)ch(SW, 10), lim = 0; size_t es = k.isd ? 8 : 4;
  for (int t = 0; t < steps; t++) {
    int op = (int)ch(SS, 8), m = 1 + (int)ch(SW, chance(SW, 1, 6) ? 80 : 8); Ins s = {0}; void *q; u64 qs = ch(SW, 1 << 20); char w[80];
    if (op == 0) { q = kdx_queries(&k, &s, qs, 1, 0); in_seal(&s); VlKDForestNeighbor *nb = in_out(&s, sizeof *nb * (size_t)m, 8); sim_log(" query for %d, limit %d", m, lim); vl_kdforest_query(k.f, nb, (vl_size)m, q); if (!ns) { se[ns++] = vl_kdforest_get_searcher(k.f, 0); } i64 c = -1; snprintf(w, sizeof w, "step %d, query of the forest", t); kdx_check_nb(&k, w, q, m, nb, lim, c); sim_stat("jobs.query", 1); in_end(&s); }
    else if (op < 3) { if (!ns) { se[ns++] = vl_kdforest_new_searcher(k.f); } int z = (int)ch(SS, (u64)ns); q = kdx_queries(&k, &s, qs, 1, 0); in_seal(&s); VlKDForestNeighbor *nb = in_out(&s, sizeof *nb * (size_t)m, 8); sim_log(" query for %d by searcher %d, limit %d", m, z, lim); i64 c = (i64)vl_kdforestsearcher_query(se[z], nb, (vl_size)m, q); snprintf(w, sizeof w, "step %d, query by searcher %d", t, z); kdx_check_nb(&k, w, q, m, nb, lim, c); sim_event((u64)c); sim_stat("jobs.searcher query", 1); in_end(&s); }
    else if (op < 5) { int nq = (int)ch(SW, 8); if (m > 20) m = 20; q = kdx_queries(&k, &s, qs, nq, 0); in_seal(&s); vl_uint32 *ix = in_out(&s, 4 * (size_t)m * (size_t)nq, 4); void *d = ch(SW, 3) ? in_out(&s, es * (size_t)m * (size_t)nq, es) : 0; sim_log(" batch of %d queries for %d, limit %d", nq, m, lim); i64 c = (i64)vl_kdforest_query_with_array(k.f, ix, (vl_size)m, (vl_size)nq, d, q); kdx_check_batch(&k, q, nq, m, ix, d, lim, c); sim_event((u64)c); sim_stat("jobs.batch", 1); in_end(&s); }
    else if (op == 5) { lim = ch(SW, 2) ? 1 + (int)ch(SW, (u64)k.N + 20) : 0; vl_kdforest_set_max_num_comparisons(k.f, (vl_size)lim); sim_log(" limit %d", lim); }
    else if (op == 6) { if (ns < 4) { se[ns++] = vl_kdforest_new_searcher(k.f); sim_log(" new searcher"); } }
    else if (ns && chance(SW, 1, 2)) { /* the same query over and over: a searcher that has answered many answers as before */
      int z = (int)ch(SS, (u64)ns); u64 big = !chance(SW, 39, 40) && k.N * k.trees < 200; u32 n = (big ? 65530u : 250u) + (u32)ch(SW, 12); if (m > 8) m = 8; q = kdx_queries(&k, &s, qs, 1, 0); in_seal(&s);
      size_t z1 = sizeof(VlKDForestNeighbor) * (size_t)m; VlKDForestNeighbor *nb = in_out(&s, z1, 8), *n0 = malloc(z1); sim_log(" query for %d by searcher %d, limit %d, %u times", m, z, lim, n);
      i64 c0 = 0; for (u32 i = 0; i < n; i++) { i64 c = (i64)vl_kdforestsearcher_query(se[z], nb, (vl_size)m, q); if (!i || i == n - 1) { snprintf(w, sizeof w, "step %d, time %u by searcher %d", t, i, z); kdx_check_nb(&k, w, q, m, nb, lim, c); } if (!i) { c0 = c; memcpy(n0, nb, z1); }
        else { if (c != c0) sim_violation("repeated", "step %d: %lld comparisons the first time, %lld at time %u", t, (long long)c0, (long long)c, i); for (int j = 0; j < m; j++) if (n0[j].index != nb[j].index) sim_violation("repeated", "step %d: neighbour %d is point %lld the first time, %lld at time %u", t, j, (long long)n0[j].index, (long long)nb[j].index, i); } }
      free(n0); in_end(&s); sim_stat(big ? "jobs.long burst" : "jobs.burst", 1); }
    else if (ns) { int z = (int)ch(SS, (u64)ns); vl_kdforestsearcher_delete(se[z]); se[z] = se[--ns]; sim_log(" searcher %d deleted", z); }
  }
  kdx_drop(&k); sim_nontrivial(); check_all_released("after the forest was deleted", mark);
}
#endif
