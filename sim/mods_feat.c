/* Feature extraction modules. */
#include "mods.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/mser.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/liop.h>
#include <vl/covdet.h>
#include <vl/scalespace.h>
#include <vl/slic.h>
#include <vl/quickshift.h>
#include <vl/mathop.h>
#include <vl/imopv.h>

static int dummy_obj;
static void *mk_none(const Plan *op) { (void)op; return &dummy_obj; }
static void dr_none(void *o) { (void)o; }
static void pl_none(Plan *op) { plan_clear(op); }
#define SEED() ch(SW, 1 << 24)

/* ------------------------------------------------------------------ sift */
static void sift_po(Plan *p) {
  plan_clear(p);
  p->i[0] = 16 + (int)ch(SW, 50); p->i[1] = 16 + (int)ch(SW, 50); /* size */
  p->i[4] = (int)ch(SW, 3) - 1;   /* o_min */
  if (chance(SW, 1, 24)) { p->i[0] = 100 + (int)ch(SW, 60); p->i[1] = 100 + (int)ch(SW, 60); p->i[4] = -1; } else if (chance(SW, 1, 16)) p->i[4] = -2;
  if (chance(SW, 1, 10)) p->i[ch(SW, 2)] = 1 + (int)ch(SW, 16);
  p->i[2] = (int)ch(SW, 4);       /* 0: all octaves, else number */
  if (p->i[2] == 0) p->i[2] = -1;
  p->i[3] = 1 + (int)ch(SW, 4);   /* levels */
  int m = p->i[0] < p->i[1] ? p->i[0] : p->i[1];
  if (p->i[2] > 0) while (p->i[2] > 1 && (m >> (p->i[2] - 1 + (p->i[4] > 0 ? p->i[4] : 0))) < 4) p->i[2]--;
}
static void sift_pu(const Plan *op, Plan *p) {
  (void)op; plan_clear(p); p->seed = SEED();
  p->i[0] = (int)ch(SW, 5);                 /* 0 detect all, 1 stop after an octave, 2 given keypoints, 3 detect twice / repeated extraction, 4 raw descriptor only */
  p->i[1] = (int)ch(SW, 3);                 /* where to stop */
  p->d[0] = ch(SW, 3) == 0 ? 0 : chd(SW, 0, 4); /* peak */
  p->d[1] = ch(SW, 3) == 0 ? 10 : chd(SW, 2, 20);
  p->d[2] = ch(SW, 3) == 0 ? 0 : chd(SW, 0, 300);
  p->d[3] = ch(SW, 3) == 0 ? 3 : chd(SW, 1, 6);
  p->d[4] = ch(SW, 3) == 0 ? 2 : chd(SW, .5, 4);
}
static void *sift_mk(const Plan *op) { return vl_sift_new(op->i[0], op->i[1], op->i[2], op->i[3], op->i[4]); }
static void sift_kp(VlSiftFilt *f, VlSiftKeypoint const *k, Ins *s, Out *o, int rep) {
  double a[4]; float *d = ou_f(s, 128);
  for (int r = 0; r < rep; r++) {
    int n = vl_sift_calc_keypoint_orientations(f, a, k);
    out_i(o, "norient", n); if (n > 0) out_d(o, "orient", a, n);
    if (n == 0) { n = 1; a[0] = .3; }
    if (k->o == f->o_cur) for (int j = 0; j < (n < 2 ? n : 2); j++) { memset(d, 0, 512); vl_sift_calc_keypoint_descriptor(f, d, k, a[j]); out_f(o, "descr", d, 128); }
  }
}
/* a coordinate in [0,n-1], or somewhere around the image */
static double posn(Rng *r, int n, int wide) { double u = rng_d(r); return wide ? (u * 3 - 1) * n : u * (n - 1); }
static void sift_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlSiftFilt *f = obj; int w = op->i[0], h = op->i[1]; Ins s = {0}; Rng r = rng_make(up->seed);
  float *im = in_f(&s, (size_t)w * h); gen_image_f(&r, im, w, h, 1, 255); in_seal(&s);
  vl_sift_set_peak_thresh(f, up->d[0]); vl_sift_set_edge_thresh(f, up->d[1]); vl_sift_set_norm_thresh(f, up->d[2]); vl_sift_set_magnif(f, up->d[3]); vl_sift_set_window_size(f, up->d[4]);
  if (up->i[0] == 4) {
    float *g = in_f(&s, 2 * (size_t)w * h); for (int i = 0; i < w * h; i++) { g[2 * i] = (float)rng_d(&r); g[2 * i + 1] = (float)(rng_d(&r) * 6.28); }
    in_seal(&s); float *d = ou_f(&s, 128);
    for (int k = 0; k < 3; k++) { int wide = up->i[1] == 2; double x = posn(&r, w, wide), y = posn(&r, h, wide), sc = .5 + rng_d(&r) * 4, an = rng_d(&r) * 6.28; memset(d, 0, 512); vl_sift_calc_raw_descriptor(f, g, d, w, h, x, y, sc, an); out_f(o, "raw", d, 128); }
    in_end(&s); return;
  }
  int oct = 0, err = vl_sift_process_first_octave(f, im);
  while (!err) {
    int ow = vl_sift_get_octave_width(f), oh = vl_sift_get_octave_height(f);
    out_i(o, "octave", vl_sift_get_octave_index(f)); out_i(o, "ow", ow);
    for (int l = f->s_min; l <= f->s_max; l += 2) out_f(o, "level", vl_sift_get_octave(f, l), (size_t)ow * oh);
    if (up->i[0] == 2) {
      for (int k = 0; k < 4; k++) { VlSiftKeypoint kp; int wide = up->i[1] == 2; double kx = posn(&r, w, wide), ky = posn(&r, h, wide); vl_sift_keypoint_init(f, &kp, kx, ky, (wide ? .05 : .8) + rng_d(&r) * (wide ? 20 : 6)); out_i(o, "kp.o", kp.o); out_i(o, "kp.is", kp.is); sift_kp(f, &kp, &s, o, 1); }
    } else {
      vl_sift_detect(f); if (up->i[0] == 3) vl_sift_detect(f);
      int n = vl_sift_get_nkeypoints(f); VlSiftKeypoint const *k = vl_sift_get_keypoints(f);
      out_i(o, "nkeys", n);
      for (int i = 0; i < n; i++) { out_f(o, "key", &k[i].x, 4); out_i(o, "key.is", k[i].is); }
      for (int i = 0; i < n && i < 8; i++) sift_kp(f, k + i, &s, o, up->i[0] == 3 ? 2 : 1);
    }
    if (up->i[0] == 1 && oct >= up->i[1]) break;
    err = vl_sift_process_next_octave(f); oct++;
  }
  out_i(o, "err", err);
  in_end(&s);
}
static void sift_dr(void *o) { vl_sift_delete(o); }

/* ------------------------------------------------------------------ dsift */
static void dsift_po(Plan *p) { plan_clear(p); p->i[0] = 12 + (int)ch(SW, 40); p->i[1] = 12 + (int)ch(SW, 40); p->i[2] = (int)ch(SW, 2); if (chance(SW, 1, 6)) p->i[ch(SW, 2)] = 1 + (int)ch(SW, 11); }
static void dsift_pu(const Plan *op, Plan *p) {
  plan_clear(p); p->seed = SEED();
  p->i[0] = 1 + (int)ch(SW, 6); p->i[1] = 1 + (int)ch(SW, 6);
  p->i[2] = 8; p->i[3] = 1 + (int)ch(SW, 4); p->i[4] = 1 + (int)ch(SW, 4); if (chance(SW, 1, 3)) p->i[2] = 2 + (int)ch(SW, 10);
  p->i[5] = 1 + (int)ch(SW, 5); p->i[6] = 1 + (int)ch(SW, 5); p->i[7] = (int)ch(SW, 2);
  p->i[8] = (int)ch(SW, 4) == 0 ? (int)ch(SW, (op->i[0] + 2) / 3) : 0; p->i[9] = (int)ch(SW, 4) == 0 ? (int)ch(SW, (op->i[1] + 2) / 3) : 0;
  p->i[10] = op->i[0] - 1 - ((int)ch(SW, 4) == 0 ? (int)ch(SW, (op->i[0] + 2) / 3) : 0); p->i[11] = op->i[1] - 1 - ((int)ch(SW, 4) == 0 ? (int)ch(SW, (op->i[1] + 2) / 3) : 0);
  p->d[0] = ch(SW, 2) ? 2 : chd(SW, .3, 4); p->i[12] = (int)ch(SW, 4);
}
static void *dsift_mk(const Plan *op) { return op->i[2] ? vl_dsift_new_basic(op->i[0], op->i[1], 4, 3) : vl_dsift_new(op->i[0], op->i[1]); }
static void dsift_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlDsiftFilter *f = obj; int w = op->i[0], h = op->i[1]; Ins s = {0}; Rng r = rng_make(up->seed);
  float *im = in_f(&s, (size_t)w * h); gen_image_f(&r, im, w, h, 1, up->i[12] == 1 ? 255 : 1); in_seal(&s);
  VlDsiftDescriptorGeometry g = {up->i[2], up->i[3], up->i[4], up->i[5], up->i[6]};
  if (up->i[12] & 1) { vl_dsift_set_geometry(f, &g); vl_dsift_set_steps(f, up->i[0], up->i[1]); vl_dsift_set_bounds(f, up->i[8], up->i[9], up->i[10], up->i[11]); }
  else { vl_dsift_set_bounds(f, up->i[8], up->i[9], up->i[10], up->i[11]); vl_dsift_set_steps(f, up->i[0], up->i[1]); vl_dsift_set_geometry(f, &g); }
  vl_dsift_set_flat_window(f, up->i[7]); vl_dsift_set_window_size(f, up->d[0]);
  vl_dsift_process(f, im); if (up->i[12] == 3) vl_dsift_process(f, im);
  int n = vl_dsift_get_keypoint_num(f), ds = vl_dsift_get_descriptor_size(f);
  out_i(o, "n", n); out_i(o, "size", ds);
  if (n > 0) {
    for (int i = 0; i < n; i++) { VlDsiftKeypoint const *k = vl_dsift_get_keypoints(f) + i; double v[3] = {k->x, k->y, k->norm}; out_d(o, "frame", v, 3); }
    out_f(o, "descr", vl_dsift_get_descriptors(f), (size_t)n * ds);
    if (up->i[2] == 8) { float *t = ou_f(&s, ds); vl_dsift_transpose_descriptor(t, vl_dsift_get_descriptors(f), up->i[2], up->i[3], up->i[4]); out_f(o, "transposed", t, ds); }
  }
  in_end(&s);
}
static void dsift_dr(void *o) { vl_dsift_delete(o); }

/* ------------------------------------------------------------------ mser */
static void mser_po(Plan *p) { plan_clear(p); p->i[0] = chance(SW, 1, 4) ? (chance(SW, 1, 2) ? 3 : 1) : 2; int lim = p->i[0] == 3 ? 10 : p->i[0] == 1 ? 200 : 36; for (int k = 0; k < p->i[0]; k++) p->i[1 + k] = (chance(SW, 1, 8) ? 1 : 3) + (int)ch(SW, lim); }
static void mser_pu(const Plan *op, Plan *p) {
  (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 1 + (int)ch(SW, 30); p->i[1] = (int)ch(SW, 4); p->i[2] = (int)ch(SW, 6);
  p->d[0] = ch(SW, 2) ? 0 : chd(SW, 0, .2); p->d[1] = ch(SW, 2) ? .9 : chd(SW, .2, 1); p->d[2] = ch(SW, 2) ? 1 : chd(SW, 0, 2); p->d[3] = ch(SW, 2) ? .2 : chd(SW, 0, 1);
}
static void *mser_mk(const Plan *op) { return vl_mser_new(op->i[0], op->i + 1); }
static void mser_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlMserFilt *f = obj; int nel = 1; for (int k = 0; k < op->i[0]; k++) nel *= op->i[1 + k];
  Ins s = {0}; Rng r = rng_make(up->seed); u8 *im = in_bytes(&s, nel, 1); gen_image_u8(&r, im, nel, op->i[1]);
  if (up->i[2] == 1) for (int i = 0; i < nel; i++) im[i] = (u8)(im[i] / 40 * 40);
  in_seal(&s);
  vl_mser_set_delta(f, (vl_mser_pix)up->i[0]); vl_mser_set_min_area(f, up->d[0]); vl_mser_set_max_area(f, up->d[1]); vl_mser_set_max_variation(f, up->d[2]); vl_mser_set_min_diversity(f, up->d[3]);
  vl_mser_process(f, im); if (up->i[1] == 2) vl_mser_process(f, im);
  out_i(o, "nmer", vl_mser_get_regions_num(f)); out_u32(o, "mer", vl_mser_get_regions(f), vl_mser_get_regions_num(f));
  VlMserStats const *st = vl_mser_get_stats(f); int v[6] = {st->num_extremal, st->num_unstable, st->num_abs_unstable, st->num_too_big, st->num_too_small, st->num_duplicates}; out_put(o, "stats", T_I32, v, 6);
  if (up->i[1]) { int rep = up->i[1] == 3 ? 2 : 1; while (rep--) { vl_mser_ell_fit(f); out_i(o, "nell", vl_mser_get_ell_num(f)); out_f(o, "ell", vl_mser_get_ell(f), (size_t)vl_mser_get_ell_num(f) * vl_mser_get_ell_dof(f)); } }
  in_end(&s);
}
static void mser_dr(void *o) { vl_mser_delete(o); }

/* ------------------------------------------------------------------ hog */
static void hog_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 2); p->i[1] = 2 + (int)ch(SW, 8); p->i[2] = (int)ch(SW, 2); }
static void hog_pu(const Plan *op, Plan *p) {
  (void)op; plan_clear(p); p->seed = SEED(); p->i[2] = 2 + (int)ch(SW, 7); int lo = p->i[2] * 2 < 4 ? 4 : p->i[2] * 2;
  p->i[0] = lo + (int)ch(SW, 24); p->i[1] = lo + (int)ch(SW, 24); if (chance(SW, 1, 8)) p->i[ch(SW, 2)] = (lo > 4 ? lo / 2 > 4 ? lo / 2 : 4 : 4) + (int)ch(SW, 4); p->i[3] = 1 + (int)ch(SW, 3); p->i[4] = (int)ch(SW, 2); p->i[5] = (int)ch(SW, 5);
}
static void *hog_mk(const Plan *op) { return vl_hog_new(op->i[0] ? VlHogVariantUoctti : VlHogVariantDalalTriggs, op->i[1], op->i[2]); }
static void hog_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlHog *f = obj; int w = up->i[0], h = up->i[1], c = up->i[3], cs = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed);
  vl_hog_set_use_bilinear_orientation_assignments(f, up->i[4]);
  if (up->i[5] >= 3) {
    float *m = in_f(&s, (size_t)w * h), *a = in_f(&s, (size_t)w * h); for (int i = 0; i < w * h; i++) { m[i] = (float)rng_d(&r); a[i] = (float)((rng_d(&r) * 2 - 1) * 3.14); }
    in_seal(&s); vl_hog_put_polar_field(f, m, a, up->i[5] == 4, w, h, cs);
  } else { float *im = in_f(&s, (size_t)w * h * c); gen_image_f(&r, im, w, h, c, 1); in_seal(&s); vl_hog_put_image(f, im, w, h, c, cs); if (up->i[5] == 2) vl_hog_put_image(f, im, w, h, c, cs); }
  size_t hw = vl_hog_get_width(f), hh = vl_hog_get_height(f), d = vl_hog_get_dimension(f); out_i(o, "hw", hw); out_i(o, "hh", hh); out_i(o, "dim", d);
  float *ft = ou_f(&s, hw * hh * d); vl_hog_extract(f, ft); out_f(o, "hog", ft, hw * hh * d);
  if (up->i[5] == 1) { vl_hog_extract(f, ft); out_f(o, "hog.again", ft, hw * hh * d); }
  size_t gs = vl_hog_get_glyph_size(f); float *ri = ou_f(&s, gs * gs * hw * hh); memset(ri, 0, gs * gs * hw * hh * 4); vl_hog_render(f, ri, ft, hw, hh); out_i(o, "glyph", gs);
  u64 hsh = hash_bytes(ri, gs * gs * hw * hh * 4, 1); (void)hsh; out_f(o, "render", ri, gs * gs * (hw < 2 ? hw : 2));
  out_put(o, "perm", T_I64, vl_hog_get_permutation(f), d);
  in_end(&s);
}
static void hog_dr(void *o) { vl_hog_delete(o); }

/* ------------------------------------------------------------------ lbp */
static void lbp_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 2); }
static void lbp_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[2] = 2 + (int)ch(SW, 8); int lo = p->i[2] < 3 ? 3 : p->i[2]; p->i[0] = lo + (int)ch(SW, 30); p->i[1] = lo + (int)ch(SW, 30); if (chance(SW, 1, 8)) p->i[ch(SW, 2)] = 1 + (int)ch(SW, (u64)lo); }
static void *lbp_mk(const Plan *op) { return vl_lbp_new(VlLbpUniform, op->i[0]); }
static void lbp_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlLbp *f = obj; int w = up->i[0], h = up->i[1], cs = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed);
  float *im = in_f(&s, (size_t)w * h); gen_image_f(&r, im, w, h, 1, 255); in_seal(&s);
  size_t n = (size_t)(w / cs) * (h / cs) * vl_lbp_get_dimension(f); float *ft = ou_f(&s, n);
  vl_lbp_process(f, ft, im, w, h, cs); out_f(o, "lbp", ft, n); in_end(&s);
}
static void lbp_dr(void *o) { vl_lbp_delete(o); }

/* ------------------------------------------------------------------ liop */
static void liop_po(Plan *p) { plan_clear(p); p->i[0] = 2 + (int)ch(SW, 4); p->i[1] = 1 + (int)ch(SW, 6); p->i[2] = 7 + 2 * (int)ch(SW, 14); p->d[0] = chd(SW, 1.0, p->i[2] / 2 - 1.0 < 6 ? p->i[2] / 2 - 1.0 : 6); p->i[3] = chance(SW, 1, 4); }
static void liop_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 3); p->d[0] = chd(SW, 0, .5); }
static void *liop_mk(const Plan *op) { return op->i[3] ? vl_liopdesc_new_basic(17 + op->i[2]) : vl_liopdesc_new(op->i[0], op->i[1], (float)op->d[0], op->i[2]); }
static void liop_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; VlLiopDesc *f = obj; int n = (int)f->patchSideLength; Ins s = {0}; Rng r = rng_make(up->seed);
  float *im = in_f(&s, (size_t)n * n); gen_image_f(&r, im, n, n, 1, 1); in_seal(&s);
  vl_liopdesc_set_intensity_threshold(f, up->i[0] == 0 ? -(5.0f / 255.f) : up->i[0] == 1 ? (float)up->d[0] : 0.f);
  size_t d = vl_liopdesc_get_dimension(f); float *ft = ou_f(&s, d); vl_liopdesc_process(f, ft, im); out_f(o, "liop", ft, d); in_end(&s);
}
static void liop_dr(void *o) { vl_liopdesc_delete(o); }

/* ------------------------------------------------------------------ covdet */
static void covdet_po(Plan *p) { plan_clear(p); p->i[0] = (int)ch(SW, 6); }
static void covdet_pu(const Plan *op, Plan *p) {
  plan_clear(p); p->seed = SEED(); p->i[0] = 18 + (int)ch(SW, 40); p->i[1] = 18 + (int)ch(SW, 40);
  p->i[2] = -(int)ch(SW, 2); p->i[3] = 1 + (int)ch(SW, 4); p->i[4] = (int)ch(SW, 64); /* steps wanted */
  p->i[5] = (int)ch(SW, 2); p->i[6] = (int)ch(SW, 2); p->i[7] = 1 + (int)ch(SW, 4); p->i[8] = (int)ch(SW, 3); p->i[9] = (int)ch(SW, 4); p->i[10] = (int)ch(SW, 2); p->i[11] = (int)ch(SW, 3);
  if (chance(SW, 1, 6)) p->i[0] = 1 + (int)ch(SW, 18); if (chance(SW, 1, 6)) p->i[1] = 1 + (int)ch(SW, 18); if (chance(SW, 1, 8)) p->i[2] = 1 + (int)ch(SW, 2);
  p->d[0] = ch(SW, 2) ? 0.5 : chd(SW, 0, 4); p->d[1] = ch(SW, 2) ? 10 : chd(SW, 2, 20); p->d[2] = ch(SW, 2) ? 0 : chd(SW, 0, 1); p->d[3] = ch(SW, 2) ? 0.5 : chd(SW, 0, 1); p->d[4] = ch(SW, 2) ? 1.6 : chd(SW, 1.2, 2.2);
  if (op->i[0] != VL_COVDET_METHOD_HARRIS_LAPLACE - VL_COVDET_METHOD_DOG && op->i[0] != VL_COVDET_METHOD_HESSIAN_LAPLACE - VL_COVDET_METHOD_DOG && chance(SW, 1, 40)) { /* more features than the buffers first hold */
    p->i[0] = 150 + (int)ch(SW, 80); p->i[1] = 150 + (int)ch(SW, 80); p->i[2] = 0; p->i[4] = 1; p->i[12] = 1; p->d[0] = 0; p->d[1] = 1000; p->d[3] = 0; p->d[4] = chd(SW, .3, .8); p->i[3] = 1 + (int)ch(SW, 2);
  }
}
static void *covdet_mk(const Plan *op) { return vl_covdet_new(VL_COVDET_METHOD_DOG + op->i[0]); }
static void covdet_features(VlCovDet *f, Out *o) {
  int n = (int)vl_covdet_get_num_features(f); out_i(o, "nfeat", n); VlCovDetFeature *ft = vl_covdet_get_features(f);
  for (int i = 0; i < n; i++) { out_f(o, "frame", &ft[i].frame.x, 6); out_f(o, "scores", &ft[i].peakScore, 4); }
}
static void covdet_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlCovDet *f = obj; int w = up->i[0], h = up->i[1]; Ins s = {0}; Rng r = rng_make(up->seed); int st = up->i[4];
  float *im = in_f(&s, (size_t)w * h); gen_image_f(&r, im, w, h, 1, 255); if (up->i[12]) for (int i = 0; i < w * h; i++) im[i] = (float)(255 * rng_d(&r)); in_seal(&s);
  if (up->i[9] != 3) vl_covdet_reset(f);
  vl_covdet_set_first_octave(f, up->i[2]); vl_covdet_set_num_octaves(f, (vl_size)up->i[8] == 0 ? (vl_size)-1 : (vl_size)up->i[8]); vl_covdet_set_octave_resolution(f, up->i[3]); vl_covdet_set_base_scale(f, up->d[4]);
  vl_covdet_set_peak_threshold(f, up->d[0]); vl_covdet_set_edge_threshold(f, up->d[1]); vl_covdet_set_laplacian_peak_threshold(f, up->d[2] * .1); vl_covdet_set_non_extrema_suppression_threshold(f, up->d[3]);
  vl_covdet_set_transposed(f, up->i[5]); vl_covdet_set_aa_accurate_smoothing(f, up->i[6]); vl_covdet_set_max_num_orientations(f, up->i[7]); vl_covdet_set_allow_padded_warping(f, up->i[10]);
  int put = vl_covdet_put_image(f, im, w, h); out_i(o, "put", put);
  if (put == VL_ERR_BAD_ARG) { in_end(&s); return; } /* no pixels in the first octave */
  if (up->i[9] == 3 || (st & 1)) { vl_covdet_detect(f); out_i(o, "suppressed", vl_covdet_get_num_non_extrema_suppressed(f)); if (up->i[11] == 2) { vl_covdet_detect(f); } }
  else for (int k = 0; k < 3; k++) { VlCovDetFeature ft; memset(&ft, 0, sizeof ft); double sc = 1.5 + rng_d(&r) * 3; int wide = up->i[8] == 2; if (wide) sc *= rng_n(&r, 9) ? rng_d(&r) * 4 : 0; ft.frame.x = (float)posn(&r, w, wide); ft.frame.y = (float)posn(&r, h, wide); ft.frame.a11 = (float)sc; ft.frame.a22 = (float)(sc * (.7 + .6 * rng_d(&r))); ft.frame.a12 = (float)(.2 * rng_d(&r)); ft.frame.a21 = 0; ft.peakScore = 1; out_i(o, "append", vl_covdet_append_feature(f, &ft)); }
  covdet_features(f, o);
  if (vl_covdet_get_num_features(f) > 24) vl_covdet_drop_features_outside(f, -0.0), vl_covdet_drop_features_outside(f, 1.0);
  if (vl_covdet_get_num_features(f) > 16) { st &= 1 | 8; } /* keep it cheap */
  if (st & 2) { vl_covdet_drop_features_outside(f, (up->i[11] - 1.0) * .7); covdet_features(f, o); }
  if (st & 4) { vl_covdet_extract_affine_shape(f); covdet_features(f, o); }
  if (st & 8) { vl_covdet_extract_orientations(f); covdet_features(f, o); }
  if ((st & 16) && !(op->i[0] == 2 || op->i[0] == 3)) { vl_covdet_extract_laplacian_scales(f); covdet_features(f, o); vl_size ns; vl_size const *ls = vl_covdet_get_laplacian_scales_statistics(f, &ns); out_put(o, "lapstat", T_U64, ls, ns + 1); }
  if (st & 32) {
    VlCovDetFeature *ft = vl_covdet_get_features(f); int n = (int)vl_covdet_get_num_features(f); int res = 3 + up->i[11] * 4; size_t np = (size_t)(2 * res + 1) * (2 * res + 1); float *p = ou_f(&s, np);
    for (int i = 0; i < n && i < 6; i++) { VlFrameOrientedEllipse fr = ft[i].frame; int e = vl_covdet_extract_patch_for_frame(f, p, res, 2.0 + up->i[11] * 2, up->i[11] == 0 ? 0.5 : 1.0, fr); out_i(o, "patch.err", e); if (e == VL_ERR_OK) out_f(o, "patch", p, np); }
  }
  in_end(&s);
}
static void covdet_dr(void *o) { vl_covdet_delete(o); }

/* ------------------------------------------------------------------ scalespace */
static void ss_po(Plan *p) {
  plan_clear(p); p->i[0] = 4 + (int)ch(SW, 50); p->i[1] = 4 + (int)ch(SW, 50); if (chance(SW, 1, 8)) p->i[ch(SW, 2)] = 1 + (int)ch(SW, 3); p->i[2] = (int)ch(SW, 3) - 1; p->i[3] = p->i[2] + (int)ch(SW, 3);
  int m = p->i[0] < p->i[1] ? p->i[0] : p->i[1]; while (p->i[3] > p->i[2] && (m >> p->i[3]) < 2) p->i[3]--;
  p->i[4] = 1 + (int)ch(SW, 4); p->i[5] = (int)ch(SW, 3) - 1; p->i[6] = p->i[4] - 1 + (int)ch(SW, 3); if (p->i[6] < p->i[5]) p->i[6] = p->i[5];
  p->d[0] = ch(SW, 2) ? 1.6 : chd(SW, 1, 2.5); p->d[1] = ch(SW, 2) ? .5 : chd(SW, 0, 1); p->i[7] = chance(SW, 1, 5);
}
static void ss_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 3); }
static void *ss_mk(const Plan *op) {
  if (op->i[7]) return vl_scalespace_new(op->i[0], op->i[1]);
  VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(op->i[0], op->i[1]);
  g.firstOctave = op->i[2]; g.lastOctave = op->i[3]; g.octaveResolution = op->i[4]; g.octaveFirstSubdivision = op->i[5]; g.octaveLastSubdivision = op->i[6]; g.baseScale = op->d[0]; g.nominalScale = op->d[1];
  return vl_scalespace_new_with_geometry(g);
}
void ss_dump(VlScaleSpace *f, Out *o) {
  VlScaleSpaceGeometry g = vl_scalespace_get_geometry(f);
  for (vl_index q = g.firstOctave; q <= g.lastOctave; q++) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(f, q); out_i(o, "w", og.width); out_dv(o, "step", og.step);
    for (vl_index l = g.octaveFirstSubdivision; l <= g.octaveLastSubdivision; l++) { out_dv(o, "sigma", vl_scalespace_get_level_sigma(f, q, l)); out_f(o, "level", vl_scalespace_get_level(f, q, l), og.width * og.height); } }
}
static void ss_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  VlScaleSpace *f = obj; Ins s = {0}; Rng r = rng_make(up->seed); int w = op->i[0], h = op->i[1];
  float *im = in_f(&s, (size_t)w * h); gen_image_f(&r, im, w, h, 1, 255); in_seal(&s);
  vl_scalespace_put_image(f, im); if (up->i[0] == 2) vl_scalespace_put_image(f, im);
  ss_dump(f, o); in_end(&s);
}
static void ss_dr(void *o) { vl_scalespace_delete(o); }

/* ------------------------------------------------------------------ slic */
static void slic_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = 2 + (int)ch(SW, 40); p->i[1] = 2 + (int)ch(SW, 40); if (chance(SW, 1, 6)) p->i[ch(SW, 2)] = 1; p->i[2] = 1 + (int)ch(SW, 3); p->i[3] = 1 + (int)ch(SW, 14); p->d[0] = ch(SW, 3) ? chd(SW, 0, 2) : chd(SW, 0, 1000); p->i[4] = (int)ch(SW, 20); }
static void slic_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; (void)obj; int w = up->i[0], h = up->i[1], c = up->i[2]; Ins s = {0}; Rng r = rng_make(up->seed); float *im = in_f(&s, (size_t)w * h * c); gen_image_f(&r, im, w, h, c, 1); in_seal(&s);
  vl_uint32 *sg = in_out(&s, (size_t)w * h * 4, 4); vl_slic_segment(sg, im, w, h, c, up->i[3], (float)up->d[0], up->i[4]); out_u32(o, "seg", sg, (size_t)w * h); in_end(&s);
}

/* ------------------------------------------------------------------ quickshift */
typedef struct { VlQS *q; Ins s; } QsObj;
static void qs_po(Plan *p) { plan_clear(p); p->seed = SEED(); p->i[0] = 2 + (int)ch(SW, 20); p->i[1] = 2 + (int)ch(SW, 20); if (chance(SW, 1, 6)) p->i[ch(SW, 2)] = 1; p->i[2] = 1 + (int)ch(SW, 3); }
static void qs_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->d[0] = chd(SW, .5, 4); p->d[1] = chd(SW, 1, 12); p->i[0] = (int)ch(SW, 2); p->i[1] = (int)ch(SW, 3); }
static void *qs_mk(const Plan *op) {
  Ins *h = &(Ins){0}; QsObj *b = in_out(h, sizeof *b, 8); memset(b, 0, sizeof *b); b->s = *h; int w = op->i[0], hh = op->i[1], c = op->i[2];
  double *im = in_d(&b->s, (size_t)w * hh * c); Rng r = rng_make(op->seed); for (int i = 0; i < w * hh * c; i++) im[i] = rng_d(&r) * (rng_n(&r, 4) ? 2 : 20); in_seal(&b->s);
  b->q = vl_quickshift_new(im, hh, w, c); return b;
}
static void qs_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  QsObj *b = obj; VlQS *q = b->q; size_t n = (size_t)op->i[0] * op->i[1];
  vl_quickshift_set_kernel_size(q, up->d[0]); vl_quickshift_set_max_dist(q, up->d[1]); vl_quickshift_set_medoid(q, up->i[0]);
  vl_quickshift_process(q); if (up->i[1] == 2) vl_quickshift_process(q);
  out_put(o, "parents", T_I32, vl_quickshift_get_parents(q), n); out_d(o, "dists", vl_quickshift_get_dists(q), n); out_d(o, "density", vl_quickshift_get_density(q), n);
  in_check(&b->s);
}
static void qs_dr(void *obj) { QsObj *b = obj; vl_quickshift_delete(b->q); Ins t = b->s; in_end(&t); }

const Mod mods_feat[] = {
  {"sift", M_REUSE | M_SIMD | M_STATIC, sift_po, sift_pu, sift_mk, sift_us, sift_dr},
  {"dsift", M_REUSE | M_SIMD, dsift_po, dsift_pu, dsift_mk, dsift_us, dsift_dr},
  {"mser", M_REUSE, mser_po, mser_pu, mser_mk, mser_us, mser_dr},
  {"hog", M_REUSE, hog_po, hog_pu, hog_mk, hog_us, hog_dr},
  {"lbp", M_REUSE, lbp_po, lbp_pu, lbp_mk, lbp_us, lbp_dr},
  {"liop", M_REUSE, liop_po, liop_pu, liop_mk, liop_us, liop_dr},
  {"covdet", M_REUSE | M_SIMD, covdet_po, covdet_pu, covdet_mk, covdet_us, covdet_dr},
  {"scalespace", M_REUSE | M_SIMD, ss_po, ss_pu, ss_mk, ss_us, ss_dr},
  {"slic", 0, pl_none, slic_pu, mk_none, slic_us, dr_none},
  {"quickshift", M_REUSE, qs_po, qs_pu, qs_mk, qs_us, qs_dr},
  {0, 0, 0, 0, 0, 0, 0}};
