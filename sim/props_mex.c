/* The gateways of the toolbox in a simulated host (C19): valid calls, damaged calls, and calls cut short, in sequences. */
#include "jobs.h"
#include "vfs.h"
#include "host.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <vl/generic.h>
#include <vl/random.h>
extern int sim_ready;
void sim_child_setup(void) {
  vfs_reset(); Env e; env_default(&e); env_use(&e); sim_clock_mode = 0; sim_clock_reset(1);
  sim_budget = 400000000ULL; mem_use_allocator(OWN_RAW); vl_set_printf_func(sim_printf);
  vl_get_rand(); sim_ready = 1;
}
#define MAXIN 40
typedef struct { const char *g; MexFn fn; int nout, nin; mxArray *in[MAXIN], *out[8]; } Call;
typedef struct { const char *name; int steps; void (*gen)(Rng *r, int s, Call *c); } Kind;
#define GATEWAY(f) void mex_vl_##f(int, mxArray **, int, const mxArray **)
GATEWAY(aib); GATEWAY(aibhist); GATEWAY(fisher); GATEWAY(irodr); GATEWAY(rodr); GATEWAY(gmm); GATEWAY(imdisttf); GATEWAY(imintegral); GATEWAY(imsmooth); GATEWAY(imwbackwardmx); GATEWAY(tpsumx);
GATEWAY(hikmeans); GATEWAY(hikmeanspush); GATEWAY(ikmeans); GATEWAY(ikmeanspush); GATEWAY(kmeans); GATEWAY(alldist); GATEWAY(alldist2); GATEWAY(binsearch); GATEWAY(binsum); GATEWAY(cummax); GATEWAY(hog); GATEWAY(homkermap);
GATEWAY(ihashfind); GATEWAY(ihashsum); GATEWAY(inthist); GATEWAY(kdtreebuild); GATEWAY(kdtreequery); GATEWAY(lbp); GATEWAY(localmax); GATEWAY(sampleinthist); GATEWAY(svmtrain); GATEWAY(twister);
GATEWAY(erfill); GATEWAY(mser); GATEWAY(quickshift); GATEWAY(covdet); GATEWAY(dsift); GATEWAY(liop); GATEWAY(sift); GATEWAY(siftdescriptor); GATEWAY(ubcmatch); GATEWAY(slic); GATEWAY(vlad); GATEWAY(version); GATEWAY(threads); GATEWAY(simdctrl);
#define BEGIN(f, no) c[s].g = "vl_" #f; c[s].fn = mex_vl_##f; c[s].nout = (no); c[s].nin = 0
#define ARG(a) arg(&c[s], (a))
#define OPT(n, a) opt(&c[s], r, n, (a))
#define FLAG(n) arg(&c[s], name(r, n))
#define MAYBE rng_n(r, 3) == 0
static void arg(Call *c, mxArray *a) { if (c->nin >= MAXIN) sim_harness_error("too many arguments"); c->in[c->nin++] = a; }
static mxArray *name(Rng *r, const char *n) { char b[64]; snprintf(b, sizeof b, "%s", n); int k = (int)rng_n(r, 8); for (char *p = b; *p; p++) if (k == 1) { if (*p >= 'A' && *p <= 'Z') *p += 32; } else if (k == 2) { if (*p >= 'a' && *p <= 'z') *p -= 32; } return ws_str(b); }
static void opt(Call *c, Rng *r, const char *n, mxArray *v) { arg(c, name(r, n)); arg(c, v); }
static mxArray *fr(Rng *r, mxArray *a, double lo, double hi) { for (size_t i = 0, n = ws_n(a); i < n; i++) ws_put(a, i, lo + (hi - lo) * rng_d(r)); return a; }
static mxArray *fi(Rng *r, mxArray *a, int lo, int hi) { for (size_t i = 0, n = ws_n(a); i < n; i++) ws_put(a, i, lo + (int)rng_n(r, (u32)(hi - lo + 1))); return a; }
static mxArray *image(Rng *r, mxArray *a, size_t m, double scale) { /* blobs, ramps and noise; m rows */
  size_t n = ws_n(a); double cx[5], cy[5], cs[5]; for (int k = 0; k < 5; k++) { cx[k] = rng_d(r) * (double)n / (double)(m ? m : 1); cy[k] = rng_d(r) * (double)m; cs[k] = 1.5 + 3 * rng_d(r); } double ns = 0.1 * rng_d(r);
  for (size_t i = 0; i < n; i++) { double x = (double)(i / m), y = (double)(i % m), v = ns * rng_d(r); for (int k = 0; k < 5; k++) v += (k & 1 ? -0.4 : 0.9) * exp(-((x - cx[k]) * (x - cx[k]) + (y - cy[k]) * (y - cy[k])) / (2 * cs[k] * cs[k])); v = 0.3 + 0.5 * v; if (v < 0) v = 0; if (v > 1) v = 1; ws_put(a, i, scale * v); }
  return a;
}
static const int D = mxDOUBLE_CLASS, S = mxSINGLE_CLASS, U8 = mxUINT8_CLASS, U32 = mxUINT32_CLASS, I32 = mxINT32_CLASS;
static int fl(Rng *r) { return rng_n(r, 2) ? mxDOUBLE_CLASS : mxSINGLE_CLASS; }
static const char *pick(Rng *r, const char *const *t) { int n = 0; while (t[n]) n++; return t[rng_n(r, (u32)n)]; }
#define PICK(...) pick(r, (const char *const[]){__VA_ARGS__, 0})
static int numcls(Rng *r) { static const int t[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS}; return t[rng_n(r, 8)]; }
#define N(lo, hi) ((size_t)(lo) + rng_n(r, (u32)((hi) - (lo) + 1)))
/* ---- one generator for each family of calls ---- */
static void g_geometry(Rng *r, int s, Call *c) {
  size_t k = N(1, 3); int no = (int)N(1, 2);
  if (s == 0) { BEGIN(rodr, no); ARG(fr(r, ws_2(D, 3, k), -2, 2)); }
  else { BEGIN(irodr, no); ARG(fr(r, ws_2(D, 9, k), -1, 1)); }
}
static void g_irodr(Rng *r, int s, Call *c) { if (s == 0) { BEGIN(rodr, 1); ARG(fr(r, ws_2(D, 3, 1), -2, 2)); } else { BEGIN(irodr, (int)N(1, 2)); ARG(c[0].out[0]); } }
static void g_tps(Rng *r, int s, Call *c) { BEGIN(tpsumx, 1); ARG(fr(r, ws_2(D, 2, N(1, 12)), 0, 9)); ARG(fr(r, ws_2(D, 2, N(1, 6)), 0, 9)); }
static void g_binsearch(Rng *r, int s, Call *c) { BEGIN(binsearch, 1); size_t n = N(1, 9); mxArray *b = ws_2(D, 1, n); double v = 0; for (size_t i = 0; i < n; i++) ws_put(b, i, v += rng_d(r)); ARG(b); ARG(fr(r, ws_2(D, N(1, 4), N(1, 5)), -1, 6)); }
static void g_lbp(Rng *r, int s, Call *c) { BEGIN(lbp, 1); size_t m = N(6, 24); ARG(image(r, ws_2(S, m, N(6, 24)), m, 255)); ARG(ws_d((double)N(2, 6))); }
static void g_imintegral(Rng *r, int s, Call *c) { BEGIN(imintegral, 1); int t[] = {D, S, U32, I32}; ARG(fi(r, rng_n(r, 2) ? ws_2(t[rng_n(r, 4)], N(1, 12), N(1, 12)) : ws_3(t[rng_n(r, 4)], N(1, 7), N(1, 7), N(1, 3)), 0, 90)); }
static void g_imdisttf(Rng *r, int s, Call *c) { BEGIN(imdisttf, (int)N(1, 2)); ARG(fr(r, ws_2(fl(r), N(1, 12), N(1, 12)), 0, 30)); if (rng_n(r, 2)) ARG(fr(r, ws_2(D, 1, 4), 0.2, 1.5)); }
static void g_inthist(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(inthist, 1); size_t m = N(2, 10), n = N(2, 10); int k = (int)N(2, 6), l = rng_n(r, 3) ? 0 : (int)N(1, 3); ARG(fi(r, l ? ws_3(U32, m, n, (size_t)l) : ws_2(U32, m, n), rng_n(r, 4) ? 1 : 0, k)); if (MAYBE) OPT("NumLabels", ws_d(k)); if (MAYBE) OPT("Mass", fr(r, l ? ws_3(rng_n(r, 2) ? D : U32, m, n, (size_t)l) : ws_2(rng_n(r, 2) ? D : U32, m, n), 0, 2)); return; }
  BEGIN(sampleinthist, 1); ARG(c[0].out[0]); size_t m = mxGetM(c[0].in[0]), n = mxGetN(c[0].in[0]), k = N(1, 5); mxArray *b = ws_2(U32, 4, k);
  for (size_t i = 0; i < k; i++) { size_t x = N(1, m), y = N(1, n); ws_put(b, 4 * i, (double)x); ws_put(b, 4 * i + 1, (double)y); ws_put(b, 4 * i + 2, (double)(MAYBE ? N(1, m) : N(x, m))); ws_put(b, 4 * i + 3, (double)(MAYBE ? N(1, n) : N(y, n))); }
  ARG(b);
}
static void g_queries(Rng *r, int s, Call *c) { switch (rng_n(r, 3)) { case 0: BEGIN(version, (int)N(0, 1)); if (rng_n(r, 2)) FLAG("Verbose"); break; case 1: BEGIN(threads, (int)N(0, 1)); break; default: BEGIN(simdctrl, (int)N(0, 1)); break; } }
static void g_cummax(Rng *r, int s, Call *c) { BEGIN(cummax, 1); int three = (int)rng_n(r, 2); int k = numcls(r); ARG(fi(r, three ? ws_3(k, N(1, 5), N(1, 5), N(2, 4)) : ws_2(k, N(1, 8), N(1, 8)), 0, 100)); if (rng_n(r, 2)) ARG(ws_d((double)N(1, three ? 3 : 2))); }
static void g_binsum(Rng *r, int s, Call *c) {
  BEGIN(binsum, 1); int k = fl(r); size_t m = N(2, 6), n = N(2, 6), q = N(1, 9); int dim = (int)rng_n(r, 3);
  if (!dim) { ARG(fi(r, ws_2(k, m, n), 0, 9)); ARG(fr(r, ws_2(k, 1, q), 0, 2)); ARG(fi(r, ws_2(D, 1, q), 1, (int)(m * n))); }
  else { ARG(fi(r, ws_2(k, m, n), 0, 9)); ARG(fr(r, dim == 1 ? ws_2(k, q, n) : ws_2(k, m, q), 0, 2)); ARG(fi(r, dim == 1 ? ws_2(D, q, n) : ws_2(D, m, q), 1, (int)(dim == 1 ? m : n))); ARG(ws_d(dim)); }
}
static void g_ikmeans(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(ikmeans, (int)N(1, 2)); ARG(fi(r, ws_2(U8, N(1, 6), N(10, 50)), 0, 255)); ARG(ws_d((double)N(1, 6))); if (MAYBE) OPT("MaxIters", ws_d((double)N(1, 20))); if (rng_n(r, 2)) OPT("Method", name(r, PICK("lloyd", "elkan"))); if (MAYBE) FLAG("Verbose"); return; }
  BEGIN(ikmeanspush, 1); ARG(fi(r, ws_2(U8, mxGetM(c[0].in[0]), N(1, 20)), 0, 255)); ARG(c[0].out[0]); if (rng_n(r, 2)) OPT("Method", name(r, PICK("lloyd", "elkan"))); if (MAYBE) FLAG("Verbose");
}
static void g_hikmeans(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(hikmeans, (int)N(1, 2)); int k = (int)N(2, 4); ARG(fi(r, ws_2(U8, N(1, 5), N(30, 80)), 0, 255)); ARG(ws_d(k)); ARG(ws_d((double)N(k, 16))); if (MAYBE) OPT("MaxIters", ws_d((double)N(1, 20))); if (rng_n(r, 2)) OPT("Method", name(r, PICK("lloyd", "elkan"))); if (MAYBE) FLAG("Verbose"); return; }
  BEGIN(hikmeanspush, 1); ARG(c[0].out[0]); ARG(fi(r, ws_2(U8, mxGetM(c[0].in[0]), N(1, 20)), 0, 255)); if (MAYBE) OPT("Method", name(r, PICK("lloyd", "elkan"))); if (MAYBE) FLAG("Verbose");
}
static void g_twister(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(twister, 0); ARG(ws_str("state")); switch (rng_n(r, 4)) { case 0: ARG(ws_d((double)N(0, 1000))); break; case 1: case 2: { mxArray *q = ws_2(U32, 625, 1); for (size_t i = 0; i < 624; i++) ws_put(q, i, (double)rng_n(r, 1u << 31) * 2 + 1); ws_put(q, 624, (double)N(0, 624)); ARG(q); break; } default: ARG(fi(r, ws_2(D, N(1, 3) > 2 ? N(600, 624) : N(1, 12), 1), 0, 100000)); } if (rng_n(r, 2)) { c[s].nin = 1; c[s].nout = 1; } return; }
  BEGIN(twister, 1); int k = (int)rng_n(r, 4); if (k == 1) ARG(ws_d((double)N(0, 5))); else if (k == 2) { ARG(ws_d((double)N(0, 5))); ARG(ws_d((double)N(0, 5))); } else if (k == 3) ARG(fi(r, ws_2(D, 1, 3), 1, 4));
}
static void g_slic(Rng *r, int s, Call *c) { BEGIN(slic, 1); size_t m = N(6, 24), n = N(6, 24); ARG(image(r, rng_n(r, 2) ? ws_2(S, m, n) : ws_3(S, m, n, 3), m, 1)); ARG(ws_d((double)N(2, 8))); ARG(ws_d(0.01 + rng_d(r))); if (MAYBE) OPT("MinRegionSize", ws_d((double)N(0, 12))); if (MAYBE) FLAG("Verbose"); }
static void g_kdtree(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(kdtreebuild, 1); ARG(fr(r, ws_2(fl(r), N(1, 5), N(1, 60)), -1, 1)); if (MAYBE) OPT("ThresholdMethod", name(r, PICK("median", "mean"))); if (rng_n(r, 2)) OPT("NumTrees", ws_d((double)N(1, 3))); if (MAYBE) OPT("Distance", name(r, PICK("l1", "l2"))); if (MAYBE) FLAG("Verbose"); return; }
  BEGIN(kdtreequery, (int)N(1, 2)); size_t n = mxGetN(c[0].in[0]); ARG(c[0].out[0]); ARG(c[0].in[0]); ARG(fr(r, ws_2(mxGetClassID(c[0].in[0]), mxGetM(c[0].in[0]), N(1, 9)), -1, 1)); if (rng_n(r, 2)) OPT("NumNeighbors", ws_d((double)N(1, n > 6 ? 6 : n))); if (MAYBE) OPT("MaxNumComparisons", ws_d((double)N(0, 40))); if (MAYBE) FLAG("Verbose");
}
static void g_quickshift(Rng *r, int s, Call *c) { BEGIN(quickshift, (int)N(1, 3)); size_t m = N(3, 12), n = N(3, 12); ARG(image(r, rng_n(r, 2) ? ws_2(D, m, n) : ws_3(D, m, n, 3), m, 1)); ARG(ws_d(0.5 + 2 * rng_d(r))); if (rng_n(r, 2)) ARG(ws_d(1 + 5 * rng_d(r))); if (c[s].nin == 3) { if (MAYBE) FLAG("Medoid"); if (MAYBE) FLAG("Verbose"); } }
static void g_vlad(Rng *r, int s, Call *c) {
  BEGIN(vlad, 1); int k = fl(r); size_t d = N(1, 6), n = N(1, 12), q = N(1, 5); ARG(fr(r, ws_2(k, d, n), -1, 1)); ARG(fr(r, ws_2(k, d, q), -1, 1)); ARG(fi(r, ws_2(k, q, n), 0, 1));
  static const char *const o[] = {"Unnormalized", "NormalizeComponents", "NormalizeMass", "SquareRoot", "Verbose"}; for (int i = 0; i < 5; i++) if (MAYBE) FLAG(o[i]);
}
static void g_fisher(Rng *r, int s, Call *c) {
  BEGIN(fisher, 1); int k = fl(r); size_t d = N(1, 6), n = N(1, 12), q = N(1, 5); ARG(fr(r, ws_2(k, d, n), -1, 1)); ARG(fr(r, ws_2(k, d, q), -1, 1)); ARG(fr(r, ws_2(k, d, q), 0.1, 1)); ARG(fr(r, ws_2(k, 1, q), 0.1, 1));
  static const char *const o[] = {"Normalized", "SquareRoot", "Improved", "Fast", "Verbose"}; for (int i = 0; i < 5; i++) if (MAYBE) FLAG(o[i]);
}
static void g_aib(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(aib, (int)N(1, 2)); ARG(fi(r, ws_2(D, N(1, 4), N(2, 12)), rng_n(r, 3) ? 1 : 0, 9)); if (MAYBE) FLAG("ClusterNull"); if (MAYBE) FLAG("Verbose"); return; }
  BEGIN(aibhist, 1); ARG(c[0].out[0]); size_t n = mxGetN(c[0].in[0]);
  if (rng_n(r, 2)) ARG(fi(r, ws_2(D, 1, N(1, 12)), 1, (int)n)); else { ARG(fi(r, ws_2(D, 1, n), 0, 9)); ARG(ws_str("hist")); }
}
static void g_liop(Rng *r, int s, Call *c) { BEGIN(liop, 1); size_t m = 2 * N(5, 12) + 1; ARG(image(r, rng_n(r, 2) ? ws_2(S, m, m) : ws_3(S, m, m, N(1, 3)), m, 1)); if (MAYBE) OPT("NumNeighbours", ws_d((double)N(2, 4))); if (MAYBE) OPT("NumSpatialBins", ws_d((double)N(1, 6))); if (MAYBE) OPT("Radius", ws_d(1 + 2 * rng_d(r))); if (MAYBE) OPT("IntensityThreshold", ws_d(rng_d(r) - 0.5)); if (MAYBE) FLAG("Verbose"); }
static void g_alldist(Rng *r, int s, Call *c) { BEGIN(alldist, 1); int k = fl(r); size_t d = N(1, 8); ARG(fr(r, ws_2(k, d, N(1, 6)), 0, 1)); if (rng_n(r, 2)) ARG(fr(r, ws_2(k, d, N(1, 6)), 0, 1)); if (rng_n(r, 2)) FLAG(PICK("l2", "l1", "chi2", "hell", "js", "kl2", "kl1", "kchi2", "khell", "kjs")); }
static void g_alldist2(Rng *r, int s, Call *c) { BEGIN(alldist2, 1); int k = numcls(r); size_t d = N(1, 8); ARG(fi(r, ws_2(k, d, N(1, 6)), 0, 100)); if (rng_n(r, 2)) ARG(fi(r, ws_2(k, d, N(1, 6)), 0, 100)); if (rng_n(r, 2)) FLAG(PICK("linf", "l2", "l1", "l0", "chi2", "hell", "kl2", "kl1", "kchi2", "khell")); }
static void g_ihash(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(ihashsum, 3); size_t k = N(4, 12), d = N(1, 4); ARG(ws_2(U32, 1, k)); ARG(ws_2(U8, d, k)); ARG(ws_2(U32, 1, k)); ARG(ws_d((double)k)); ARG(fi(r, ws_2(U8, d, N(1, 10)), rng_n(r, 5) ? 1 : 0, 3)); return; }
  BEGIN(ihashfind, 1); ARG(c[0].out[1]); ARG(c[0].out[2]); ARG(c[0].in[3]); ARG(fi(r, ws_2(U8, mxGetM(c[0].in[1]), N(1, 10)), 0, 3));
}
static void g_homkermap(Rng *r, int s, Call *c) { BEGIN(homkermap, 1); ARG(fr(r, ws_2(fl(r), N(1, 4), N(1, 5)), -1, 2)); ARG(ws_d((double)N(0, 3))); if (rng_n(r, 2)) FLAG(PICK("kl1", "kchi2", "kjs", "kinters")); if (MAYBE) OPT("kernel", name(r, PICK("kl1", "kchi2", "kjs", "kinters"))); if (MAYBE) OPT("gamma", ws_d(0.5 + rng_d(r))); if (MAYBE) OPT("period", ws_d(2 + 5 * rng_d(r))); if (MAYBE) OPT("window", name(r, PICK("uniform", "rectangular"))); }
static void mser_opts(Rng *r, int s, Call *c) { if (rng_n(r, 2)) OPT("Delta", ws_d((double)N(1, 12))); if (MAYBE) OPT("MaxArea", ws_d(0.3 + 0.7 * rng_d(r))); if (MAYBE) OPT("MinArea", ws_d(0.02 * rng_d(r))); if (MAYBE) OPT("MaxVariation", ws_d(0.2 + 2 * rng_d(r))); if (MAYBE) OPT("MinDiversity", ws_d(0.5 * rng_d(r))); if (MAYBE) OPT("BrightOnDark", ws_d((double)rng_n(r, 2))); if (MAYBE) OPT("DarkOnBright", ws_d((double)rng_n(r, 2))); if (MAYBE) FLAG("Verbose"); }
static void g_mser(Rng *r, int s, Call *c) {
  size_t m = N(5, 20), n = N(5, 20);
  if (s == 0) { BEGIN(mser, (int)N(1, 2)); ARG(image(r, ws_2(U8, m, n), m, 255)); mser_opts(r, s, c); return; }
  BEGIN(erfill, 1); m = mxGetM(c[0].in[0]); ARG(c[0].in[0]); ARG(ws_d((double)N(1, (int)ws_n(c[0].in[0])) * (rng_n(r, 2) ? 1 : -1)));
}
static void g_ubcmatch(Rng *r, int s, Call *c) { BEGIN(ubcmatch, (int)N(1, 2)); static const int t[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxUINT8_CLASS, mxINT8_CLASS}; int k = t[rng_n(r, 4)]; size_t d = N(1, 8); ARG(fi(r, ws_2(k, d, N(1, 9)), 0, 60)); ARG(fi(r, ws_2(k, d, N(1, 9)), 0, 60)); if (rng_n(r, 2)) ARG(ws_d(1 + rng_d(r))); }
static mxArray *lg(int v) { mxArray *a = ws_2(mxLOGICAL_CLASS, 1, 1); ws_put(a, 0, v); return a; }
static mxArray *frames(Rng *r, size_t n, double w, double h) { mxArray *f = ws_2(D, 4, n); for (size_t i = 0; i < n; i++) { ws_put(f, 4 * i, 1 + rng_d(r) * (w - 1)); ws_put(f, 4 * i + 1, 1 + rng_d(r) * (h - 1)); ws_put(f, 4 * i + 2, 0.6 + 2 * rng_d(r)); ws_put(f, 4 * i + 3, 6 * rng_d(r)); } return f; }
static void g_siftdescriptor(Rng *r, int s, Call *c) { BEGIN(siftdescriptor, 1); size_t m = N(8, 24), n = N(8, 24); mxArray *g = ws_3(S, 2, m, n); for (size_t i = 0; i < ws_n(g); i++) ws_put(g, i, i & 1 ? 6.28 * rng_d(r) : rng_d(r)); ARG(g); ARG(frames(r, N(1, 4), (double)n, (double)m)); if (MAYBE) OPT("Magnif", ws_d(1 + 3 * rng_d(r))); if (MAYBE) FLAG("FloatDescriptors"); if (MAYBE) OPT("NormThresh", ws_d(rng_d(r))); if (MAYBE) FLAG("Verbose"); }
static void g_localmax(Rng *r, int s, Call *c) { BEGIN(localmax, 1); int three = (int)rng_n(r, 2); size_t m = N(3, 9); ARG(three ? fi(r, ws_3(D, m, N(3, 9), N(3, 6)), 0, 50) : fi(r, ws_2(D, m, N(3, 9)), 0, 50)); if (rng_n(r, 2)) ARG(ws_d((double)N(0, 40))); }
static void g_imwbackward(Rng *r, int s, Call *c) { BEGIN(imwbackwardmx, 1); size_t m = N(2, 9), n = N(2, 9), p = N(1, 6), q = N(1, 6); mxArray *X = ws_2(D, 1, n), *Y = ws_2(D, 1, m); for (size_t i = 0; i < n; i++) ws_put(X, i, (double)i + 1); for (size_t i = 0; i < m; i++) ws_put(Y, i, (double)i + 1); ARG(X); ARG(Y); ARG(fr(r, ws_2(D, m, n), 0, 1)); ARG(fr(r, ws_2(D, p, q), 0, (double)n + 1)); ARG(fr(r, ws_2(D, p, q), 0, (double)m + 1)); if (MAYBE) c[s].nout = 3; }
static void g_hog(Rng *r, int s, Call *c) {
  if (s == 0) { BEGIN(hog, 1); int pf = rng_n(r, 5) == 0; size_t m = N(8, 28), n = N(8, 28); ARG(pf ? fr(r, ws_3(S, m, n, 2), 0, 1) : image(r, rng_n(r, 2) ? ws_2(S, m, n) : ws_3(S, m, n, 3), m, 1)); ARG(ws_d((double)N(2, 8))); OPT("Variant", name(r, PICK("uoctti", "dalaltriggs"))); OPT("NumOrientations", ws_d((double)N(2, 9))); if (pf) FLAG(PICK("DirectedPolarField", "UndirectedPolarField")); if (MAYBE) FLAG("BilinearOrientations"); }
  else { BEGIN(hog, 1); if (s == 1) { ARG(ws_str("render")); ARG(c[0].out[0]); } else ARG(ws_str("permutation")); for (int i = 2; i < 6; i++) ARG(c[0].in[i]); }
  if (rng_n(r, 6) == 0) FLAG("Verbose");
}
static void g_imsmooth(Rng *r, int s, Call *c) { BEGIN(imsmooth, 1); int k = fl(r); size_t m = N(1, 20), n = N(1, 20); ARG(image(r, rng_n(r, 2) ? ws_2(k, m, n) : ws_3(k, m, n, N(1, 3)), m, 1)); ARG(ws_d(3 * rng_d(r))); if (MAYBE) OPT("Padding", name(r, PICK("zero", "continuity"))); if (MAYBE) OPT("Subsample", ws_d((double)N(1, 4))); if (MAYBE) OPT("Kernel", name(r, PICK("gaussian", "triangular"))); if (MAYBE) FLAG("Verbose"); }
static void g_kmeans(Rng *r, int s, Call *c) {
  BEGIN(kmeans, (int)N(1, 3)); ARG(fr(r, ws_2(fl(r), N(1, 5), N(12, 60)), -1, 1)); ARG(ws_d((double)N(1, 6))); if (rng_n(r, 2)) OPT("MaxNumIterations", ws_d((double)N(1, 20))); if (rng_n(r, 2)) OPT("Algorithm", name(r, PICK("Lloyd", "Elkan", "ANN"))); if (MAYBE) OPT("Distance", name(r, PICK("l1", "l2"))); if (MAYBE) OPT("NumRepetitions", ws_d((double)N(1, 3))); if (rng_n(r, 2)) OPT("Initialization", name(r, PICK("plusplus", "randsel"))); if (MAYBE) OPT("NumTrees", ws_d((double)N(1, 3))); if (MAYBE) OPT("MaxNumComparisons", ws_d((double)N(3, 30))); if (MAYBE) OPT("MinEnergyVariation", ws_d(0.1 * rng_d(r))); if (MAYBE) FLAG("Verbose");
}
static void g_gmm(Rng *r, int s, Call *c) {
  int k = fl(r); size_t d = N(1, 4), q = N(1, 4); BEGIN(gmm, (int)N(1, 5)); ARG(fr(r, ws_2(k, d, N(20, 50)), -1, 1)); ARG(ws_d((double)q)); if (rng_n(r, 2)) OPT("MaxNumIterations", ws_d((double)N(1, 12))); if (MAYBE) OPT("NumRepetitions", ws_d((double)N(1, 3))); if (MAYBE) OPT("CovarianceBound", ws_d(0.001)); if (MAYBE) FLAG("Verbose");
  int in = (int)rng_n(r, 3); if (in) OPT("Initialization", name(r, in == 1 ? "rand" : "custom")); if (in == 2) { OPT("InitMeans", fr(r, ws_2(k, d, q), -1, 1)); OPT("InitCovariances", fr(r, ws_2(k, d, q), 0.2, 1)); OPT("InitPriors", fr(r, ws_2(k, 1, q), 0.5, 0.6)); }
}
static void g_dsift(Rng *r, int s, Call *c) { BEGIN(dsift, (int)N(1, 2)); size_t m = N(14, 30), n = N(14, 30); ARG(image(r, ws_2(S, m, n), m, 1)); if (rng_n(r, 2)) OPT("Step", rng_n(r, 2) ? ws_d((double)N(2, 6)) : fi(r, ws_2(D, 1, 2), 2, 6)); if (rng_n(r, 2)) OPT("Size", rng_n(r, 2) ? ws_d((double)N(2, 4)) : fi(r, ws_2(D, 1, 2), 2, 4)); if (MAYBE) FLAG("Fast"); if (MAYBE) FLAG("Norm"); if (MAYBE) FLAG("FloatDescriptors"); if (MAYBE) OPT("WindowSize", ws_d(0.5 + 2 * rng_d(r))); if (MAYBE) { mxArray *g = ws_2(D, 1, 3); fi(r, g, 1, 5); ws_put(g, 2, (double)N(4, 8)); OPT("Geometry", g); } if (MAYBE) { mxArray *b = ws_2(D, 1, 4); ws_put(b, 0, (double)N(1, 3)); ws_put(b, 1, (double)N(1, 3)); ws_put(b, 2, (double)N((int)n - 3, (int)n)); ws_put(b, 3, (double)N((int)m - 3, (int)m)); OPT("Bounds", b); } if (MAYBE) FLAG("Verbose"); }
static void g_sift(Rng *r, int s, Call *c) { BEGIN(sift, (int)N(1, 2)); size_t m = N(12, 32), n = N(12, 32); ARG(image(r, ws_2(S, m, n), m, 255)); if (MAYBE) OPT("Octaves", ws_d((double)N(1, 3))); if (MAYBE) OPT("Levels", ws_d((double)N(1, 4))); if (MAYBE) OPT("FirstOctave", ws_d((double)N(0, 2) - 1)); if (MAYBE) { OPT("Frames", frames(r, N(1, 4), (double)n, (double)m)); if (rng_n(r, 2)) FLAG("Orientations"); } if (MAYBE) OPT("PeakThresh", ws_d(3 * rng_d(r))); if (MAYBE) OPT("EdgeThresh", ws_d(5 + 10 * rng_d(r))); if (MAYBE) OPT("NormThresh", ws_d(rng_d(r))); if (MAYBE) OPT("Magnif", ws_d(1 + 3 * rng_d(r))); if (MAYBE) OPT("WindowSize", ws_d(1 + 3 * rng_d(r))); if (MAYBE) FLAG("FloatDescriptors"); if (MAYBE) FLAG("Verbose"); }
static void g_covdet(Rng *r, int s, Call *c) {
  BEGIN(covdet, (int)N(1, 3)); size_t m = N(16, 40), n = N(16, 40); ARG(image(r, ws_2(S, m, n), m, 1)); if (rng_n(r, 2)) OPT("Method", name(r, PICK("DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "MultiscaleHarris"))); if (MAYBE) OPT("OctaveResolution", ws_d((double)N(1, 4))); if (MAYBE) OPT("NumOctaves", ws_d((double)N(1, 3))); if (MAYBE) OPT("BaseScale", ws_d(1 + rng_d(r))); if (rng_n(r, 2)) OPT("DoubleImage", lg((int)rng_n(r, 2))); if (rng_n(r, 2)) OPT("PeakThreshold", ws_d(0.01 * rng_d(r))); if (MAYBE) OPT("EdgeThreshold", ws_d(5 + 10 * rng_d(r))); if (MAYBE) OPT("LaplacianPeakThreshold", ws_d(0.02 * rng_d(r)));
  if (rng_n(r, 2)) OPT("EstimateOrientation", lg((int)rng_n(r, 2))); if (MAYBE) OPT("MaxNumOrientations", ws_d((double)N(1, 4))); if (rng_n(r, 2)) OPT("EstimateAffineShape", lg((int)rng_n(r, 2))); if (MAYBE) { size_t q = N(1, 3); static const int nf[] = {2, 3, 4, 5, 6}; size_t d = (size_t)nf[rng_n(r, 5)]; mxArray *f = ws_2(D, d, q); for (size_t i = 0; i < q; i++) for (size_t k = 0; k < d; k++) ws_put(f, i * d + k, k == 0 ? 4 + rng_d(r) * (double)(n - 8) : k == 1 ? 4 + rng_d(r) * (double)(m - 8) : d == 6 ? (k == 2 || k == 5 ? 2 + rng_d(r) : 0.5 * rng_d(r)) : d == 5 ? (k == 3 ? 0.5 * rng_d(r) : 3 + rng_d(r)) : k == 2 ? 1 + 2 * rng_d(r) : rng_d(r)); OPT("Frames", f); }
  if (rng_n(r, 2)) OPT("Descriptor", name(r, PICK("None", "Patch", "SIFT", "LIOP"))); if (MAYBE) OPT("PatchResolution", ws_d((double)N(4, 9))); if (MAYBE) OPT("PatchRelativeExtent", ws_d(2 + 3 * rng_d(r))); if (MAYBE) OPT("PatchRelativeSmoothing", ws_d(0.5 + rng_d(r))); if (MAYBE) OPT("AllowPaddedWarping", lg((int)rng_n(r, 2))); if (MAYBE) OPT("LiopNumSpatialBins", ws_d((double)N(2, 6))); if (MAYBE) OPT("LiopNumNeighbours", ws_d((double)N(2, 4))); if (MAYBE) OPT("LiopRadius", ws_d(1 + 2 * rng_d(r))); if (MAYBE) FLAG("Verbose");
}
static void g_svm(Rng *r, int s, Call *c) {
  int k = fl(r), set = (int)rng_n(r, 3) == 0; size_t d = N(1, 4), n = N(4, 20); BEGIN(svmtrain, (int)N(1, 4)); mxArray *x = fr(r, ws_2(k, d, n), -1, 1), *y = ws_2(D, 1, n); for (size_t i = 0; i < n; i++) ws_put(y, i, rng_n(r, 2) ? 1 : -1);
  if (!set) ARG(x); else { static const char *f[] = {"data", "homkermap"}; static const char *g[] = {"order", "gamma", "window", "period"}; int hk = (int)rng_n(r, 2); mxArray *t = ws_struct(1 + hk, f); ws_set(t, 0, x); if (hk) { mxArray *h = ws_struct(1 + (int)rng_n(r, 2), g); ws_set(h, 0, ws_d((double)N(1, 2))); if (mxGetNumberOfFields(h) > 1) ws_set(h, 1, ws_d(1)); ws_set(t, 1, h); } ARG(t); }
  ARG(y); ARG(ws_d(0.01 + rng_d(r))); OPT("MaxNumIterations", ws_d((double)N(1, 200))); if (MAYBE) OPT("Epsilon", ws_d(0.1 * rng_d(r))); if (MAYBE) OPT("BiasMultiplier", ws_d(rng_d(r))); int sdca = rng_n(r, 8) != 0; if (rng_n(r, 2)) { sdca = (int)rng_n(r, 3) == 0; OPT("Solver", name(r, sdca ? "sdca" : PICK("sgd", "none"))); } if (MAYBE) OPT("Loss", name(r, PICK("hinge", "hinge2", "l1", "l2", "logistic"))); if (rng_n(r, 2)) OPT("DiagnosticFunction", ws_fn()); if (MAYBE) OPT("DiagnosticFrequency", ws_d((double)N(1, 50))); if (MAYBE) OPT("StartingIteration", ws_d((double)N(1, 20))); if (MAYBE) OPT("BiasLearningRate", ws_d(rng_d(r))); if (MAYBE) OPT("Weights", fr(r, ws_2(D, 1, n), 0.2, 1)); if (!set && !sdca && MAYBE) { OPT("Model", fr(r, ws_2(D, d, 1), -1, 1)); OPT("Bias", ws_d(rng_d(r))); } if (MAYBE) FLAG("Verbose");
}
static const Kind kinds[] = {
  {"geometry", 2, g_geometry}, {"queries", 2, g_queries}, {"irodr", 2, g_irodr}, {"tps", 1, g_tps}, {"binsearch", 1, g_binsearch}, {"lbp", 1, g_lbp}, {"imintegral", 1, g_imintegral}, {"imdisttf", 1, g_imdisttf}, {"inthist", 2, g_inthist}, {"cummax", 1, g_cummax}, {"binsum", 1, g_binsum}, {"ikmeans", 2, g_ikmeans}, {"hikmeans", 2, g_hikmeans}, {"twister", 2, g_twister}, {"slic", 1, g_slic}, {"kdtree", 2, g_kdtree}, {"quickshift", 1, g_quickshift}, {"vlad", 1, g_vlad}, {"fisher", 1, g_fisher}, {"aib", 2, g_aib}, {"liop", 1, g_liop}, {"alldist", 1, g_alldist}, {"alldist2", 1, g_alldist2}, {"ihash", 2, g_ihash}, {"homkermap", 1, g_homkermap}, {"mser", 2, g_mser}, {"ubcmatch", 1, g_ubcmatch}, {"siftdescriptor", 1, g_siftdescriptor}, {"localmax", 1, g_localmax}, {"imwbackward", 1, g_imwbackward}, {"hog", 3, g_hog}, {"imsmooth", 1, g_imsmooth}, {"kmeans", 1, g_kmeans}, {"gmm", 1, g_gmm}, {"dsift", 1, g_dsift}, {"sift", 1, g_sift}, {"covdet", 1, g_covdet}, {"svm", 1, g_svm}};
#define NKIND (sizeof kinds / sizeof *kinds)
/* ---- units: dependent calls of one kind ---- */
#define MAXSTEP 3
typedef struct { const Kind *k; u64 seed; Call c[MAXSTEP]; int done, dead; Out ref[MAXSTEP]; u64 cnt[MAXSTEP][3]; } Unit;
typedef struct { Unit *u; int step; u64 dseed; } Try;
static void before_call(const Unit *u, int s) { sim_clock_reset(u->seed + (u64)s); vl_rand_seed(vl_get_rand(), (vl_uint32)(u->seed * 31 + (u64)s)); }
static void unit_gen(Unit *u, int s) { Rng r = rng_make(u->seed * 8 + (u64)s); u->k->gen(&r, s, u->c); }
static int propagate(int st) { return st; }
static void record(Out *o, const Call *c, int st) { out_i(o, "outcome", st); out_s(o, "error", host_error); if (st == H_OK) for (int i = 0; i < c->nout; i++) ws_out(o, "result", c->out[i]); }
static int proper(Unit *u, int s, Out *o) { before_call(u, s); int st = host_call(u->c[s].g, u->c[s].fn, u->c[s].nout, u->c[s].out, u->c[s].nin, u->c[s].in, HF_NONE, 0); if (o) { record(o, &u->c[s], st); rand_state(o); } return propagate(st); }
/* the whole unit in a fresh session; per step: counts, outcome, results */
static void unit_fresh(void *a, Out *o) {
  Unit *u = a; for (int s = 0; s < u->k->steps; s++) { unit_gen(u, s); Out t; out_init(&t); int st = proper(u, s, &t); out_i(o, "step", (i64)t.n); out_i(o, "requests", (i64)host_requests); out_i(o, "messages", (i64)host_messages); out_i(o, "callbacks", (i64)host_callbacks); for (size_t i = 0; i < t.n; i++) out_put(o, t.it[i].label, t.it[i].type, t.buf + t.it[i].off, t.it[i].n); if (st != H_OK) break; }
}
static i64 geti(const Out *o, size_t i) { i64 v; memcpy(&v, o->buf + o->it[i].off, 8); return v; }
static void unit_reference(Unit *u) {
  Out all; out_init(&all); in_pristine(unit_fresh, u, &all); size_t i = 0;
  for (int s = 0; s < MAXSTEP; s++) out_init(&u->ref[s]);
  for (int s = 0; i < all.n; s++) { size_t n = (size_t)geti(&all, i); for (int k = 0; k < 3; k++) u->cnt[s][k] = (u64)geti(&all, i + 1 + (size_t)k); i += 4; for (size_t j = 0; j < n; j++, i++) out_put(&u->ref[s], all.it[i].label, all.it[i].type, all.buf + all.it[i].off, all.it[i].n); }
  out_free(&all);
}
/* ---- damage: the call as somebody might mistype it ---- */
static mxArray *junk(Rng *r) { static const char *f[] = {"a", "trees"}; switch (rng_n(r, 7)) { case 0: return ws_str("nonsense"); case 1: return ws_cell(2); case 2: return ws_struct(2, f); case 3: return ws_fn(); case 4: return ws_str("%s%n%d"); case 5: return ws_str(""); default: return ws_2(D, 0, 0); } }
static const char *damage(Rng *r, Call *c) {
  static char what[100]; int i = c->nin ? (int)rng_n(r, (u32)c->nin) : -1, k = (int)rng_n(r, 13); mxArray *a = i >= 0 ? c->in[i] : 0; int num = a && mxIsNumeric(a) && !mxIsSparse(a);
  if (i < 0) k = 1;
  switch (k) {
    case 0: c->nin = (int)rng_n(r, (u32)c->nin); snprintf(what, sizeof what, "only %d arguments", c->nin); return what;
    case 1: arg(c, junk(r)); return "one more argument";
    case 2: c->nout = 1 + (int)rng_n(r, 6); snprintf(what, sizeof what, "%d results wanted", c->nout); return what;
    case 3: if (num) { c->in[i] = ws_convert(a, numcls(r)); snprintf(what, sizeof what, "argument %d of class %s", i + 1, mxGetClassName(c->in[i])); return what; } /* fall through */
    case 4: c->in[i] = junk(r); snprintf(what, sizeof what, "argument %d is some %s array", i + 1, mxGetClassName(c->in[i])); return what;
    case 5: if (num) { static const size_t sh[4][3] = {{0, 0, 1}, {0, 3, 1}, {3, 0, 1}, {2, 0, 2}}; c->in[i] = ws_num(mxGetClassID(a), 3, sh[rng_n(r, 4)]); } else c->in[i] = ws_2(D, 0, 0); snprintf(what, sizeof what, "argument %d is empty", i + 1); return what;
    case 6: if (num) { size_t d[4]; int nd = 2 + (int)rng_n(r, 3); for (int q = 0; q < nd; q++) d[q] = 1 + rng_n(r, 5); if (rng_n(r, 2)) { nd = 2; d[0] = mxGetM(a); d[1] = mxGetN(a); if (rng_n(r, 3) == 0) { size_t t = d[0]; d[0] = d[1]; d[1] = t; } else d[rng_n(r, 2)] += rng_n(r, 2) ? 1 : (size_t)-1; } c->in[i] = ws_resize(a, nd, d); snprintf(what, sizeof what, "argument %d of size %zux%zu", i + 1, mxGetM(c->in[i]), mxGetN(c->in[i])); return what; } c->in[i] = junk(r); return "junk";
    case 7: if (num) { c->in[i] = ws_complex(a); snprintf(what, sizeof what, "argument %d complex", i + 1); return what; } c->in[i] = junk(r); return "junk";
    case 8: if (num) { c->in[i] = ws_sparse(a); snprintf(what, sizeof what, "argument %d sparse", i + 1); return what; } c->in[i] = junk(r); return "junk";
    case 9: arg(c, ws_str(rng_n(r, 3) ? "Verbse" : "%s%s%n")); if (rng_n(r, 2)) arg(c, ws_d(1)); return "an unknown option";
    case 10: case 11: if (num && ws_n(a)) { static const double vs[] = {0, -1, 0.5, 1, 3, 40}; mxArray *q = ws_convert(a, mxGetClassID(a)); size_t e = rng_n(r, 2) ? rng_n(r, (u32)ws_n(q)) : rng_n(r, 2) ? ws_n(q) - 1 : 0; double v = vs[rng_n(r, 6)]; mxClassID k = mxGetClassID(q); if (k == mxUINT32_CLASS && rng_n(r, 2)) v = rng_n(r, 2) ? 4294967295. : 700; else if (k == mxINT32_CLASS && rng_n(r, 2)) v = rng_n(r, 2) ? 2147483647. : -2147483648.; ws_put(q, e, v); c->in[i] = q; snprintf(what, sizeof what, "value %zu of argument %d replaced by %g", e + 1, i + 1, v); return what; } /* fall through */
    default: { int j = (int)rng_n(r, (u32)c->nin); mxArray *t = c->in[i]; c->in[i] = c->in[j]; c->in[j] = t; snprintf(what, sizeof what, "arguments %d and %d exchanged", i + 1, j + 1); return what; }
  }
}
static const char *const outcome[] = {"done", "an error", "refused", "stopped"};
static void call_log(const char *what, const Call *c) {
  if (!sim_tracing) return; char b[600]; int k = 0; for (int i = 0; i < c->nin && k < 500; i++) { const mxArray *a = c->in[i]; char t[60]; if (mxIsChar(a)) { mxGetString(a, t, sizeof t); k += snprintf(b + k, sizeof b - (size_t)k, "%s'%s'", i ? ", " : "", t); } else k += snprintf(b + k, sizeof b - (size_t)k, "%s%s %zux%zu", i ? ", " : "", mxGetClassName(a), mxGetM(a), mxGetN(a)); if (mxIsNumeric(a) && !mxIsSparse(a) && ws_n(a) == 1) k += snprintf(b + k, sizeof b - (size_t)k, " (%g)", ws_at(a, 0)); }
  b[k] = 0; sim_log("%s: %s(%s), %d results", what, c->g, b, c->nout);
}
static void damaged_fresh(void *a, Out *o) { Try *t = a; Unit *u = t->u; Call d = u->c[t->step]; Rng r = rng_make(t->dseed); damage(&r, &d); before_call(u, t->step); int st = host_call(d.g, d.fn, d.nout, d.out, d.nin, d.in, HF_NONE, 0); record(o, &d, st); }
/* a refused call may have drawn numbers, but the generator goes on where it was */
static int same_stream(const VlRand *before, const VlRand *after, u32 most) {
  VlRand a = *before, b = *after; u32 w[4], v[4]; for (int i = 0; i < 4; i++) { w[i] = vl_rand_uint32(&b); v[i] = vl_rand_uint32(&a); }
  for (u32 k = 0; k <= most; k++) { if (v[0] == w[0] && v[1] == w[1] && v[2] == w[2] && v[3] == w[3]) return 1; v[0] = v[1]; v[1] = v[2]; v[2] = v[3]; v[3] = vl_rand_uint32(&a); }
  return 0;
}
static void attempt_damaged(Unit *u, int s) {
  Try t = {u, s, ch(SF, 1 << 20)}; Out want, got; out_init(&want); out_init(&got); int cmp = (int)ch(SF, 2); if (cmp) in_pristine(damaged_fresh, &t, &want);
  Call d = u->c[s]; Rng r = rng_make(t.dseed); const char *w = damage(&r, &d); char l[140]; snprintf(l, sizeof l, " mistyped (%s)", w); call_log(l, &d); before_call(u, s); VlRand r0 = *vl_get_rand();
  int st = host_call(d.g, d.fn, d.nout, d.out, d.nin, d.in, HF_NONE, 0); if (st != H_OK && !strstr(host_error, "not assigned") && !same_stream(&r0, vl_get_rand(), strcmp(d.g, "vl_twister") ? 300000 : 0)) sim_violation("generator", "%s, refused when mistyped (%s), has replaced the state of the random generator", d.g, w); record(&got, &d, st); sim_event(out_hash(&got)); sim_log("  %s %s", outcome[st], host_error); sim_stat("fault.mistyped call", 1); if (st == H_OK) sim_stat("mistyped calls that were done", 1);
  if (cmp) { char m[200]; snprintf(m, sizeof m, "%s, mistyped (%s), against the same in a fresh session", d.g, w); expect_same("mistyped", m, &got, &want, 0, 0); }
  out_free(&want); out_free(&got); settings_check(d.g); check_lock_free(d.g);
}
static void attempt_faulted(Unit *u, int s) {
  static const char *const nm[] = {0, "fault.host memory refused", "fault.stopped by the user at a message", "fault.error in a callback"};
  int f = chr(SF, 1, 3); if (!u->cnt[s][f - 1]) f = HF_MEMORY; u64 n = u->cnt[s][f - 1]; if (!n) return; u64 at = 1 + ch(SF, n); Call d = u->c[s]; before_call(u, s); VlRand r0 = *vl_get_rand(); sim_log(" to be cut short: %s", d.g); call_log(" cut short", &d);
  int st = host_call(d.g, d.fn, d.nout, d.out, d.nin, d.in, f, at); sim_log(" %s, %s number %llu of %llu: %s %s", d.g, nm[f] + 6, (unsigned long long)at, (unsigned long long)n, outcome[st], host_error); sim_event((u64)st * 1000 + at);
  if (host_fault_fired) { sim_stat(nm[f], 1); sim_nontrivial(); if (st == H_OK) sim_violation("fault-ignored", "%s went on after an error of the host", d.g); if (st != H_OK && !(strcmp(d.g, "vl_twister") == 0 && d.nin > 1) && !same_stream(&r0, vl_get_rand(), 300000)) sim_violation("generator", "%s, cut short, has replaced the state of the random generator", d.g); }
  settings_check(d.g); check_lock_free(d.g);
}
static void run_C19(void) {
  cpu_draw(); Env e; env_draw(&e); env_use(&e); settings_mark(); static Unit us[4]; int n = 1 + (int)ch(SW, 4), left = n; u64 calls = 0; static const char *only; if (!only) { only = getenv("SIM_ONLY"); if (!only) only = ""; }
  for (int i = 0; i < n; i++) { Unit *u = us + i; memset(u, 0, sizeof *u); u->k = kinds + ch(SW, NKIND); if (*only) for (size_t q = 0; q < NKIND; q++) if (!strcmp(kinds[q].name, only)) u->k = kinds + q; u->seed = ch(SW, 1 << 20); char b[64]; snprintf(b, sizeof b, "calls.%s", u->k->name); sim_stat(b, 1); sim_event((u64)(u->k - kinds) << 20 | u->seed); unit_reference(u); }
  while (left) {
    int i = (int)ch(SS, (u64)n); while (us[i].done == us[i].k->steps || us[i].dead) i = (i + 1) % n; Unit *u = us + i; int s = u->done++; unit_gen(u, s); Call *c = u->c + s;
    for (int k = 0; k < 2; k++) { int what = (int)ch(SF, 5); if (what >= 3) attempt_damaged(u, s); else if (what) attempt_faulted(u, s); }
    call_log("call", c); Out o; out_init(&o); int st = proper(u, s, &o); sim_log("  %s %s", outcome[st], host_error); calls++; sim_event(out_hash(&o));
    { char b[80]; snprintf(b, sizeof b, st ? "proper calls refused: %s" : "proper calls: %s", c->g); sim_stat(b, 1); }
    char m[120]; snprintf(m, sizeof m, "%s, call %llu of the session, against a fresh session", c->g, (unsigned long long)calls); expect_same("later-call", m, &o, &u->ref[s], 0, 0); out_free(&o);
    settings_check(c->g); check_lock_free(c->g); if (st != H_OK) u->dead = 1; if (u->dead || u->done == u->k->steps) left--;
  }
  sim_stat("calls", calls); for (int i = 0; i < n; i++) for (int s = 0; s < MAXSTEP; s++) out_free(&us[i].ref[s]);
}
const Prop sim_props[] = {{"C19", run_C19}, {0, 0}};
const Demo sim_demos[] = {{0, 0, 0}};
