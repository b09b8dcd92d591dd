/* Low level modules: random numbers, image operations, vector operations, image files, arrays, strings, rotations. */
#include "mods.h"
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/random.h>
#include <vl/imopv.h>
#include <vl/mathop.h>
#include <vl/pgm.h>
#include <vl/array.h>
#include <vl/stringop.h>
#include <vl/rodrigues.h>
#include <vl/generic.h>
#include <vl/host.h>

static int dummy_obj;
static void *mk_none(const Plan *op) { (void)op; return &dummy_obj; }
static void dr_none(void *o) { (void)o; }
static void pl_none(Plan *op) { plan_clear(op); }
#define SEED() ch(SW, 1 << 24)

/* ------------------------------------------------------------------ random */
static void rnd_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 3); p->i[1] = 1 + (int)ch(SW, 40); p->i[2] = 1 + (int)ch(SW, 700); }
static void rnd_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)obj; (void)op; VlRand *g = vl_get_rand(); Rng r = rng_make(up->seed); Ins s = {0};
  VlRand loc; if (up->i[0] == 2) { vl_rand_init(&loc); g = &loc; }
  if (up->i[0] == 1) { vl_uint32 key[20]; int n = 1 + (int)rng_n(&r, 20); for (int i = 0; i < n; i++) key[i] = (vl_uint32)rng_next(&r); vl_rand_seed_by_array(g, key, n); } else vl_rand_seed(g, (vl_uint32)rng_next(&r));
  for (int i = 0; i < up->i[2]; i++) switch (rng_n(&r, 8)) {
    case 0: out_i(o, "u32", vl_rand_uint32(g)); break; case 1: out_i(o, "u64", (i64)vl_rand_uint64(g)); break; case 2: out_i(o, "i31", vl_rand_int31(g)); break; case 3: out_dv(o, "r1", vl_rand_real1(g)); break;
    case 4: out_dv(o, "r2", vl_rand_real2(g)); break; case 5: out_dv(o, "r3", vl_rand_real3(g)); break; case 6: out_dv(o, "r53", vl_rand_res53(g)); break; default: out_i(o, "idx", vl_rand_uindex(g, 1 + rng_n(&r, 1000))); }
  vl_index *a = in_out(&s, 8 * (size_t)up->i[1], 8); for (int i = 0; i < up->i[1]; i++) a[i] = i; vl_rand_permute_indexes(g, a, up->i[1]); out_put(o, "perm", T_I64, a, up->i[1]); in_end(&s);
}

/* ------------------------------------------------------------------ imopv */
static void imop_pu(const Plan *op, Plan *p) {
  (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 8); p->i[1] = 1 + (int)ch(SW, 30); p->i[2] = 1 + (int)ch(SW, 30); p->i[3] = (int)ch(SW, 5); p->i[4] = 1 + (int)ch(SW, 3); p->i[5] = (int)ch(SW, 2); p->i[6] = (int)ch(SW, 2); p->i[7] = (int)ch(SW, 2);
  p->i[8] = -(int)ch(SW, 8); p->i[9] = p->i[8] + (int)ch(SW, 14); p->d[0] = chd(SW, 0, 3); p->d[1] = ch(SW, 2) ? p->d[0] : chd(SW, 0, 3); p->i[10] = 1 + (int)ch(SW, 6);
}
static void imop_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)obj; (void)op; Ins s = {0}; Rng r = rng_make(up->seed); int w = up->i[1], h = up->i[2], st = w + up->i[3], isd = up->i[5], step = up->i[4]; size_t es = isd ? 8 : 4, n = (size_t)st * h; size_t ni = n - (st - w); /* the last row needs no padding */
  double *v = malloc(8 * n); for (size_t i = 0; i < n; i++) v[i] = (rng_d(&r) - .3) * 10; void *im = in_bytes(&s, ni * es, es); data_convert(v, im, ni, isd); free(v);
  unsigned fl = (up->i[6] ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO) | (up->i[7] ? VL_TRANSPOSE : 0);
  int dh = (h - 1) / step + 1, dst_w = up->i[7] ? dh : w, dst_h = up->i[7] ? w : dh, ds = dst_w + up->i[3]; size_t dn = (size_t)ds * dst_h - up->i[3];
#define EMITROWS(lab, p, W, H, S) do { for (int y_ = 0; y_ < (H); y_++) { if (isd) out_d(o, lab, (double *)(p) + (size_t)y_ * (S), W); else out_f(o, lab, (float *)(p) + (size_t)y_ * (S), W); } } while (0)
  switch (up->i[0]) {
    case 0: case 1: { int fb = up->i[8], fe = up->i[9]; double f[32]; for (int i = 0; i <= fe - fb; i++) f[i] = rng_d(&r) - .2; void *fv = in_bytes(&s, es * (fe - fb + 1), es); data_convert(f, fv, fe - fb + 1, isd); in_seal(&s); void *d = in_out(&s, dn * es, es);
      if (isd) vl_imconvcol_vd(d, ds, im, w, h, st, fv, fb, fe, step, fl); else vl_imconvcol_vf(d, ds, im, w, h, st, fv, fb, fe, step, fl); EMITROWS("convcol", d, dst_w, dst_h, ds); break; }
    case 2: { in_seal(&s); void *d = in_out(&s, dn * es, es); if (isd) vl_imconvcoltri_d(d, ds, im, w, h, st, up->i[10], step, fl); else vl_imconvcoltri_f(d, ds, im, w, h, st, up->i[10], step, fl); EMITROWS("tri", d, dst_w, dst_h, ds); break; }
    case 3: { in_seal(&s); int is = w + up->i[3]; void *d = in_out(&s, ((size_t)is * h - up->i[3]) * es, es); if (isd) vl_imintegral_d(d, is, im, w, h, st); else vl_imintegral_f(d, is, im, w, h, st); EMITROWS("integral", d, w, h, is);
      int *ii = in_bytes(&s, 4 * (size_t)w * h, 4); for (int i = 0; i < w * h; i++) ii[i] = (int)rng_n(&r, 100) - 50; in_seal(&s); int *di = in_out(&s, 4 * (size_t)w * h, 4); vl_imintegral_i32(di, w, ii, w, h, w); out_put(o, "int32", T_I32, di, (size_t)w * h); vl_uint32 *iu = in_bytes(&s, 4 * (size_t)w * h, 4); for (int i = 0; i < w * h; i++) iu[i] = rng_n(&r, 256); in_seal(&s); vl_uint32 *du = in_out(&s, 4 * (size_t)w * h, 4); vl_imintegral_ui32(du, w, iu, w, h, w); out_u32(o, "uint32", du, (size_t)w * h); break; }
    case 4: { in_seal(&s); size_t m = (size_t)w * h; void *d = in_out(&s, m * es, es); vl_uindex *ix = in_bytes(&s, 8 * m, 8); for (size_t i = 0; i < m; i++) ix[i] = i; void *im2 = in_bytes(&s, m * es, es); for (int y = 0; y < h; y++) memcpy((char *)im2 + y * w * es, (char *)im + y * st * es, w * es); in_seal(&s); s.sealed[s.k - 2] = 0;
      int row = up->i[7]; size_t nc = row ? h : w, nr = row ? w : h, cs = row ? w : 1, rs = row ? 1 : w; double co = up->i[10] == 1 ? 0 : up->d[0];
      if (isd) vl_image_distance_transform_d(im2, nc, nr, cs, rs, d, ix, co, up->d[1]); else vl_image_distance_transform_f(im2, nc, nr, cs, rs, d, ix, (float)co, (float)up->d[1]); EMITROWS("dt", d, w, h, w); out_put(o, "dt.ix", T_U64, ix, m); break; }
    case 5: { in_seal(&s); int ss = w + up->i[3]; void *d = in_out(&s, ((size_t)ss * h - up->i[3]) * es, es); if (isd) vl_imsmooth_d(d, ss, im, w, h, st, up->d[0], up->d[1]); else vl_imsmooth_f(d, ss, im, w, h, st, up->d[0], up->d[1]); EMITROWS("smooth", d, w, h, ss); break; }
    case 6: { if (w < 2 || h < 2) break; in_seal(&s); size_t m = (size_t)w * h; void *a = in_out(&s, m * es, es), *b = in_out(&s, m * es, es); if (isd) vl_imgradient_polar_d(a, b, 1, w, im, w, h, st); else vl_imgradient_polar_f(a, b, 1, w, im, w, h, st); EMITROWS("amp", a, w, h, w); EMITROWS("ang", b, w, h, w); break; }
    default: { if (w < 2 || h < 2) break; in_seal(&s); size_t m = 2 * (size_t)w * h; void *a = in_out(&s, m * es, es); if (isd) vl_imgradient_d(a, (double *)a + 1, 2, 2 * w, im, w, h, st); else vl_imgradient_f(a, (float *)a + 1, 2, 2 * w, im, w, h, st); EMITROWS("grad", a, 2 * w, h, 2 * w); break; }
  }
  in_end(&s);
}

/* ------------------------------------------------------------------ mathop */
static void math_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 5); p->i[1] = 1 + (int)ch(SW, 40); p->i[2] = (int)ch(SW, 11); p->i[3] = (int)ch(SW, 2); p->i[4] = 1 + (int)ch(SW, 4); p->i[5] = 1 + (int)ch(SW, 4); p->i[6] = (int)ch(SW, 2); }
static void math_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)obj; (void)op; Ins s = {0}; Rng r = rng_make(up->seed); int D = up->i[1], isd = up->i[3], nx = up->i[4], ny = up->i[5]; size_t es = isd ? 8 : 4;
  static const VlVectorComparisonType ty[] = {VlDistanceL1, VlDistanceL2, VlDistanceChi2, VlDistanceHellinger, VlDistanceJS, VlKernelL1, VlKernelL2, VlKernelChi2, VlKernelHellinger, VlKernelJS, VlDistanceMahalanobis}; VlVectorComparisonType t = ty[up->i[2]];
  double *v = malloc(8 * (size_t)(D * (nx + ny) + 64)); for (int i = 0; i < D * (nx + ny); i++) v[i] = rng_n(&r, 6) ? rng_d(&r) * 3 : 0; /* positive: required by the additive comparisons */
  void *X = in_bytes(&s, es * D * nx, es), *Y = in_bytes(&s, es * D * ny, es); data_convert(v, X, (size_t)D * nx, isd); data_convert(v + D * nx, Y, (size_t)D * ny, isd); free(v); in_seal(&s);
  switch (up->i[0]) {
    case 0: case 1:
      if (t == VlDistanceMahalanobis) { void *S = in_bytes(&s, es * D, es); double q[64]; for (int i = 0; i < D; i++) q[i] = .1 + rng_d(&r); data_convert(q, S, D, isd); in_seal(&s);
        if (isd) out_dv(o, "cmp3", vl_get_vector_3_comparison_function_d(t)(D, X, Y, S)); else { float f = vl_get_vector_3_comparison_function_f(t)(D, X, Y, S); out_f(o, "cmp3", &f, 1); } }
      else if (isd) out_dv(o, "cmp", vl_get_vector_comparison_function_d(t)(D, X, Y)); else { float f = vl_get_vector_comparison_function_f(t)(D, X, Y); out_f(o, "cmp", &f, 1); }
      break;
    case 2: if (t == VlDistanceMahalanobis) t = VlDistanceL2; { void *R = in_out(&s, es * (up->i[6] ? nx * ny : nx * nx), es); if (isd) vl_eval_vector_comparison_on_all_pairs_d(R, D, X, nx, up->i[6] ? Y : 0, up->i[6] ? ny : 0, vl_get_vector_comparison_function_d(t)); else vl_eval_vector_comparison_on_all_pairs_f(R, D, X, nx, up->i[6] ? Y : 0, up->i[6] ? ny : 0, vl_get_vector_comparison_function_f(t)); size_t m = up->i[6] ? (size_t)nx * ny : (size_t)nx * nx; if (isd) out_d(o, "pairs", R, m); else out_f(o, "pairs", R, m); break; }
    case 3: { double M[4], S[4], U[4], V[4]; for (int i = 0; i < 4; i++) M[i] = (rng_d(&r) - .5) * 4; if (up->i[6]) M[1] = M[2] = 0; vl_svd2(S, U, V, M); out_d(o, "S", S, 4); out_d(o, "U", U, 4); out_d(o, "V", V, 4);
      double A[9], b[3], x[3]; for (int i = 0; i < 9; i++) A[i] = rng_d(&r) - .5; for (int i = 0; i < 3; i++) b[i] = rng_d(&r); if (up->i[6]) for (int i = 0; i < 3; i++) A[3 + i] = 2 * A[i]; int e = vl_solve_linear_system_3(x, A, b); out_i(o, "err", e); if (!e) out_d(o, "x3", x, 3); e = vl_solve_linear_system_2(x, A, b); out_i(o, "err", e); if (!e) out_d(o, "x2", x, 2); break; }
    default: { int n = 1 + D % 6, m = n + ny; double *A = ou_d(&s, (size_t)n * m); for (int i = 0; i < n * m; i++) A[i] = rng_d(&r) - .5; int e = vl_gaussian_elimination(A, n, m); out_i(o, "err", e); if (!e) for (int j = n; j < m; j++) out_d(o, "ge", A + j * n, n);
      double om[3], R[9], dR[27], om2[3], dom[27]; for (int i = 0; i < 3; i++) om[i] = (rng_d(&r) - .5) * (up->i[6] ? 6 : 1e-3); if (up->i[2] == 1) om[0] = om[1] = om[2] = 0; if (up->i[2] > 1 && up->i[2] < 6) { double l = sqrt(om[0] * om[0] + om[1] * om[1] + om[2] * om[2]); if (up->i[2] == 2) om[0] = om[1] = 0, l = fabs(om[2]); for (int i = 0; i < 3 && l > 0; i++) om[i] *= 3.14159265358979 / l; } vl_rodrigues(R, dR, om); out_d(o, "R", R, 9); out_d(o, "dR", dR, 27); vl_irodrigues(om2, dom, R); out_d(o, "om", om2, 3); out_d(o, "dom", dom, 27); vl_irodrigues(om2, 0, R); out_d(o, "om0", om2, 3); break; }
  }
  in_end(&s);
}

/* ------------------------------------------------------------------ pgm */
static void pgm_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 5); p->i[1] = 1 + (int)ch(SW, 30); p->i[2] = 1 + (int)ch(SW, 30); p->i[3] = (int)ch(SW, 3); }
static void pgm_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)op; (void)obj; Ins s = {0}; Rng r = rng_make(up->seed); int w = up->i[1], h = up->i[2], n = w * h; char name[64]; snprintf(name, sizeof name, "img%llx.pgm", (unsigned long long)(up->seed ^ (u64)(size_t)o)); snprintf(name, sizeof name, "img%llx.pgm", (unsigned long long)up->seed);
  VlPgmImage pi; u8 *data = 0; float *fd = 0; int e;
  memset(&pi, 0, sizeof pi);
  if (up->i[0] == 0) { u8 *im = in_bytes(&s, n, 1); gen_image_u8(&r, im, n, w); in_seal(&s); out_i(o, "write", vl_pgm_write(name, im, w, h)); }
  else if (up->i[0] == 1) { float *im = in_f(&s, n); gen_image_f(&r, im, w, h, 1, 300); in_seal(&s); out_i(o, "write_f", vl_pgm_write_f(name, im, w, h)); }
  else if (up->i[0] == 2) { char *b = malloc(64 + 8 * n); int k = sprintf(b, "P2\n# c\n%d %d\n200\n", w, h); for (int i = 0; i < n; i++) k += sprintf(b + k, "%u%c", rng_n(&r, 201), i % 7 ? ' ' : '\n'); vfs_put(name, b, k); free(b); }
  else if (up->i[0] == 3) { char *b = malloc(64 + 2 * n); int k = sprintf(b, "P5 %d %d 65535\n", w, h); for (int i = 0; i < 2 * n; i++) b[k++] = (char)rng_n(&r, 256); vfs_put(name, b, k); free(b); }
  else { vfs_put(name, "P5 4 ", 5); }
  if (up->i[3] == 1) { e = vl_pgm_read_new_f(name, &pi, &fd); out_i(o, "read_f", e); if (!e) { out_i(o, "w", pi.width); out_f(o, "px", fd, pi.width * pi.height); vl_free(fd); } }
  else { e = vl_pgm_read_new(name, &pi, &data); out_i(o, "read", e); if (!e) { out_i(o, "w", pi.width); out_i(o, "max", pi.max_value); out_u8(o, "px", data, vl_pgm_get_npixels(&pi) * vl_pgm_get_bpp(&pi)); vl_free(data); } }
  if (e) { out_i(o, "lasterr", vl_get_last_error()); out_s(o, "msg", vl_get_last_error_message()); }
  VFile *f = vfs_get(name, 0); if (f) { out_u8(o, "file", f->data, f->n); f->exists = 0; }
  in_end(&s);
}

/* ------------------------------------------------------------------ arrays, strings, process information */
static void misc_pu(const Plan *op, Plan *p) { (void)op; plan_clear(p); p->seed = SEED(); p->i[0] = (int)ch(SW, 5); p->i[1] = 1 + (int)ch(SW, 5); p->i[2] = (int)ch(SW, 40); p->i[3] = (int)ch(SW, 10); }
static void misc_us(void *obj, const Plan *op, const Plan *up, Out *o) {
  (void)obj; (void)op; Ins s = {0}; Rng r = rng_make(up->seed);
  static const vl_type tys[] = {VL_TYPE_DOUBLE, VL_TYPE_FLOAT, VL_TYPE_INT8, VL_TYPE_UINT16, VL_TYPE_INT32, VL_TYPE_UINT64, VL_TYPE_INT64, VL_TYPE_UINT8, VL_TYPE_INT16, VL_TYPE_UINT32};
  switch (up->i[0]) {
    case 0: { vl_size d[4]; int nd = up->i[1] > 4 ? 4 : up->i[1]; for (int i = 0; i < nd; i++) d[i] = 1 + rng_n(&r, 5); VlArray *a = vl_array_new(tys[up->i[3]], nd, d); out_i(o, "ne", vl_array_get_num_elements(a)); memset(vl_array_get_data(a), 7, vl_array_get_num_elements(a) * vl_get_type_size(tys[up->i[3]])); out_put(o, "dims", T_U64, vl_array_get_dimensions(a), nd); vl_array_delete(a); break; }
    case 1: { vl_size d[2] = {1 + rng_n(&r, 6), 1 + rng_n(&r, 6)}; double *x = in_d(&s, d[0] * d[1]); for (vl_size i = 0; i < d[0] * d[1]; i++) x[i] = (double)i; in_seal(&s); VlArray *a = vl_array_new_matrix_envelope(x, VL_TYPE_DOUBLE, d[0], d[1]); out_i(o, "same", vl_array_get_data(a) == x); vl_array_delete(a); VlArray b; vl_array_init_envelope(&b, x, VL_TYPE_DOUBLE, 2, d); out_i(o, "nd", vl_array_get_num_dimensions(&b)); vl_array_dealloc(&b); vl_array_init_matrix(&b, VL_TYPE_FLOAT, d[0], d[1]); memset(vl_array_get_data(&b), 1, 4 * d[0] * d[1]); out_i(o, "ne", vl_array_get_num_elements(&b)); vl_array_dealloc(&b); break; }
    case 2: { char *src = in_bytes(&s, up->i[2] + 1, 1); for (int i = 0; i < up->i[2]; i++) src[i] = "ab/.%\\:c"[rng_n(&r, 8)]; src[up->i[2]] = 0; in_seal(&s); int n = 1 + up->i[3] * 3; char *d = in_out(&s, n, 1);
      out_i(o, "copy", vl_string_copy(d, n, src)); out_s(o, "s", d); out_i(o, "base", vl_string_basename(d, n, src, up->i[1] - 1)); out_s(o, "b", d); out_i(o, "wild", vl_string_replace_wildcard(d, n, src, '%', '\\', "repl")); out_s(o, "w", d); out_i(o, "cut", vl_string_copy_sub(d, n, src, src + up->i[2] / 2)); out_s(o, "c", d); out_i(o, "len", vl_string_length(src)); int pr; char *e = vl_string_parse_protocol(src, &pr); out_i(o, "prot", pr); out_i(o, "off", e - src); char *z = vl_string_find_char_rev(src, src + up->i[2], '.'); out_i(o, "rev", z ? z - src : -1); out_i(o, "casei", vl_string_casei_cmp(src, "AB")); break; }
    case 3: { char *c = vl_configuration_to_string_copy(); out_i(o, "conf", c != 0); if (c) { if (!strstr(c, "VLFeat version")) out_i(o, "bad conf", 1); vl_free(c); } out_s(o, "ver", vl_get_version_string()); out_i(o, "sse2", vl_cpu_has_sse2()); break; }
    default: { vl_set_last_error(3 + up->i[1], "message %d", up->i[2]); out_i(o, "err", vl_get_last_error()); out_s(o, "msg", vl_get_last_error_message()); vl_set_last_error(VL_ERR_OK, 0); vl_tic(); double t = vl_toc(); (void)t; break; }
  }
  in_end(&s);
}
const Mod mods_misc[] = {
  {"random", M_RAND, pl_none, rnd_pu, mk_none, rnd_us, dr_none},
  {"imopv", M_SIMD, pl_none, imop_pu, mk_none, imop_us, dr_none},
  {"mathop", M_SIMD, pl_none, math_pu, mk_none, math_us, dr_none},
  {"pgm", M_FILE, pl_none, pgm_pu, mk_none, pgm_us, dr_none},
  {"misc", 0, pl_none, misc_pu, mk_none, misc_us, dr_none},
  {0, 0, 0, 0, 0, 0, 0}};
