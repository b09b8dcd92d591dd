/* Images on a simulated medium: reading (C09) and writing (C10). */
#include "jobs.h"
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <vl/generic.h>
#include <vl/pgm.h>

/* ------------------------------------------------ reference reader of the format (independent of the library) */
enum { P_FAIL, P_OK, P_MAY /* this image or a failure */, P_ANY /* not specified */ };
typedef struct { int w, h, max, raw; unsigned *px; size_t need; /* bytes used */ } Img;
static int blank(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static int skip(const u8 *b, size_t n, size_t *p, int *may) { /* blanks and comments; 0: none */
  size_t s = *p;
  for (;;) {
    if (*p < n && blank(b[*p])) ++*p;
    else if (*p < n && (b[*p] == '\v' || b[*p] == '\f')) { *may = 1; ++*p; }
    else if (*p < n && b[*p] == '#') { if (*p == s) *may = 1; while (*p < n && b[*p] != '\n') ++*p; }
    else break;
  }
  return *p > s;
}
static int number(const u8 *b, size_t n, size_t *p, u64 *v, int *may, int *any) {
  if (*p < n && (b[*p] == '+' || b[*p] == '-')) { if (b[*p] == '-') *any = 1; *may = 1; ++*p; }
  size_t s = *p; *v = 0; while (*p < n && b[*p] >= '0' && b[*p] <= '9' && *p - s < 30) { *v = *v < 1000000000000ULL ? *v * 10 + (b[*p] - '0') : *v; ++*p; }
  if (*p - s > 9) *any = 1;
  return *p > s;
}
static int parse(const u8 *b, size_t n, Img *im) {
  size_t p = 2; int may = 0, any = 0; u64 w, h, m; im->px = 0;
  if (n < 2 || b[0] != 'P' || (b[1] != '2' && b[1] != '5')) return P_FAIL;
  im->raw = b[1] == '5';
  if (!skip(b, n, &p, &may) || !number(b, n, &p, &w, &may, &any)) return any ? P_ANY : P_FAIL;
  if (!skip(b, n, &p, &may) || !number(b, n, &p, &h, &may, &any)) return any ? P_ANY : P_FAIL;
  if (!skip(b, n, &p, &may) || !number(b, n, &p, &m, &may, &any)) return any ? P_ANY : P_FAIL;
  if (any) return P_ANY;
  if (p >= n) return P_FAIL;
  if (!blank(b[p])) return P_FAIL;
  p++;
  if (w < 1 || h < 1 || m < 1 || m > 65535) return P_FAIL;
  if (w * h > n) return P_FAIL; /* cannot all be there */
  im->w = (int)w; im->h = (int)h; im->max = (int)m; size_t k = (size_t)(w * h);
  im->px = malloc(k * sizeof *im->px);
  if (im->raw) {
    int bpp = m > 255 ? 2 : 1; if (n - p < k * (size_t)bpp) return P_FAIL;
    for (size_t i = 0; i < k; i++) { im->px[i] = bpp == 1 ? b[p] : (unsigned)b[p] << 8 | b[p + 1]; if (im->px[i] > m) may = 1; p += (size_t)bpp; }
  } else for (size_t i = 0; i < k; i++) {
    while (p < n && (blank(b[p]) || b[p] == '\v' || b[p] == '\f')) { if (!blank(b[p])) may = 1; p++; }
    if (p < n && b[p] == '#') return P_ANY;
    u64 v; int a = 0; if (!number(b, n, &p, &v, &may, &a)) return P_FAIL;
    if (a) return P_ANY;
    if (v > m) return P_FAIL;
    im->px[i] = (unsigned)v; if (p < n && !blank(b[p])) may = 1;
  }
  im->need = p; return may ? P_MAY : P_OK;
}
/* the tools read 8-bit images: 0 not one, 1 one, -1 not settled */
int pgm_model(const u8 *b, size_t n, unsigned **px, int *w, int *h, int *max) {
  Img im; memset(&im, 0, sizeof im); int k = parse(b, n, &im); *px = 0; if (k == P_OK) { *px = im.px; *w = im.w; *h = im.h; *max = im.max; return 1; }
  free(im.px); return k == P_FAIL ? 0 : -1;
}
/* ------------------------------------------------ files */
typedef struct { u8 b[1 << 17]; size_t n; } Buf;
static void put(Buf *b, const void *p, size_t n) { if (b->n + n > sizeof b->b) sim_harness_error("image too large"); memcpy(b->b + b->n, p, n); b->n += n; }
static void puts_(Buf *b, const char *s) { put(b, s, strlen(s)); }
static void sep(Buf *b, Rng *r) {
  int k = 1 + (int)rng_n(r, 3); int c = (int)rng_n(r, 4);
  for (int i = 0; i < k; i++) { char ch_ = " \n\t\r"[rng_n(r, 4)]; put(b, &ch_, 1); if (!c && i == 0) { puts_(b, "# comment 12 \t P5 #"); if (rng_n(r, 2)) puts_(b, "\r"); puts_(b, "\n"); } }
}
static const int maxima[] = {255, 1, 200, 254, 256, 1000, 65535, 4095};
/* draws a well formed image */
static void make_image(Buf *b, int fmt, int wide, u64 seed, int w, int h, int max) {
  Rng r = rng_make(seed); char t[64]; (void)wide;
  puts_(b, fmt ? "P5" : "P2"); sep(b, &r); snprintf(t, sizeof t, "%s%d", rng_n(&r, 9) ? "" : "0", w); puts_(b, t); sep(b, &r); snprintf(t, sizeof t, "%d", h); puts_(b, t); sep(b, &r); snprintf(t, sizeof t, "%d", max); puts_(b, t);
  char e = " \n\t\r"[rng_n(&r, 4)]; put(b, &e, 1);
  int small = (int)rng_n(&r, 2);
  for (int i = 0; i < w * h; i++) {
    unsigned v = small ? rng_n(&r, 12) % (unsigned)(max + 1) : rng_n(&r, (u32)max + 1);
    if (!small && rng_n(&r, 6) == 0) v = (unsigned)max;
    if (fmt) { u8 q[2] = {(u8)(v >> 8), (u8)v}; if (max > 255) put(b, q, 2); else put(b, q + 1, 1); }
    else { snprintf(t, sizeof t, "%u", v); puts_(b, t); if (i + 1 < w * h) { int k = 1 + (rng_n(&r, 5) == 0); while (k--) { char c = " \n\t\r"[rng_n(&r, 4)]; put(b, &c, 1); } } else if (rng_n(&r, 2)) puts_(b, "\n"); }
  }
}
static void check_px(const char *what, const Img *want, const VlPgmImage *pi, const void *data, int isf) {
  if ((int)pi->width != want->w || (int)pi->height != want->h || (int)pi->max_value != want->max) sim_violation("wrong-header", "%s: reported success with %llu x %llu max %llu, stored is %d x %d max %d", what, (unsigned long long)pi->width, (unsigned long long)pi->height, (unsigned long long)pi->max_value, want->w, want->h, want->max);
  if (!!pi->is_raw != want->raw) sim_violation("wrong-header", "%s: encoding reported as %d, is %d", what, (int)pi->is_raw, want->raw);
  for (int i = 0; i < want->w * want->h; i++) {
    if (isf) { float v = ((const float *)data)[i]; double e = (double)want->px[i] / want->max; if (!(fabs(v - e) <= 1e-5 * (1 + fabs(e)))) sim_violation("wrong-pixel", "%s: reported success, pixel %d is %g, stored is %u of %d", what, i, v, want->px[i], want->max); }
    else { unsigned v = want->max > 255 ? ((const uint16_t *)data)[i] : ((const u8 *)data)[i]; if (v != want->px[i]) sim_violation("wrong-pixel", "%s: reported success, pixel %d is %u, stored is %u", what, i, v, want->px[i]); }
  }
}
static void no_rest(const char *what, u64 mark) {
  check_all_released(what, mark);
  if (vfs_open_streams) sim_violation("stream-leak", "%s: %d stream(s) left open", what, vfs_open_streams);
}
static const char *dmg[] = {"none", "cut", "byte changed", "byte removed", "byte inserted", "bytes appended", "number replaced"};
void run_C09(void) {
  static Buf b[4]; Env e; env_draw(&e); env_use(&e); mem_use_allocator((int)ch(SE, 2) ? OWN_B : OWN_A); u64 mark = mem_mark();
  vfs_chunk = (int)ch(SE, 12); static const int bm[] = {0, 1, 2, 7, 64, 0}; vfs_bufmode = bm[ch(SE, 6)];
  int n = 1 + (int)ch(SW, 3);
  for (int i = 0; i <= n; i++) {
    int last = i == n; /* the last image is undisturbed */
    int fmt = (int)ch(SW, 2), w = 1 + (int)ch(SW, 12), h = 1 + (int)ch(SW, 12), max = maxima[ch(SW, 8)], api = (int)ch(SW, 3), nimg = 1; u64 seed = ch(SW, 1u << 20);
    if (ch(SW, 8) == 7) { w *= 9; h *= 7; }
    Buf *f = b + i; f->n = 0; char what[160], name[32]; snprintf(name, sizeof name, "in%d.pgm", i);
    if (api == 2 && fmt) nimg = 1 + (int)ch(SW, 3);
    for (int k = 0; k < nimg; k++) make_image(f, fmt, 0, seed + (u64)k, w, h, max);
    int d = last ? 0 : (int)ch(SF, 7), fx = last ? 0 : (int)ch(SF, 6); size_t at = 0; size_t head = f->n < 60 ? f->n : 60;
    if (d) { /* two thirds of the damage goes to the header and the beginning */
      at = ch(SF, 3) ? (size_t)ch(SF, head) : (size_t)ch(SF, f->n); u8 v = (u8)ch(SF, 256); static const u8 odd[] = " \n#0-9+P5x.\t"; if (ch(SF, 2)) v = odd[ch(SF, 12)];
      if (d == 1) f->n = at;
      else if (d == 2) f->b[at] = v;
      else if (d == 3) { memmove(f->b + at, f->b + at + 1, f->n - at - 1); f->n--; }
      else if (d == 4) { memmove(f->b + at + 1, f->b + at, f->n - at); f->b[at] = v; f->n++; }
      else if (d == 5) { u8 t[7] = {v, '1', ' ', 0, 255, '#', '\n'}; put(f, t, 1 + (size_t)ch(SF, 7)); }
      else { /* a number of the header */
        static const char *num[] = {"0", "-1", "x", "65536", "65535", "256", "12 ", "+3", "", "1e2", "70000", "1"}; const char *s = num[ch(SF, 12)]; int which = (int)ch(SF, 3);
        size_t p = 2; int m = 0, a = 0; u64 q; size_t from = 0; for (int k = 0; k <= which; k++) { skip(f->b, f->n, &p, &m); from = p; number(f->b, f->n, &p, &q, &m, &a); }
        size_t L = strlen(s); memmove(f->b + from + L, f->b + p, f->n - p); memcpy(f->b + from, s, L); f->n = f->n - (p - from) + L;
      }
      char st[48]; snprintf(st, sizeof st, "fault.damage_%s", dmg[d]); sim_stat(st, 1);
    }
    vfs_put(name, f->b, f->n);
    vfs_nfaults = 0; VFault *t = vfs_faults; memset(t, 0, sizeof *t);
    if (fx >= 1 && fx <= 3) { t->kind = fx == 1 ? FX_READ_EIO : fx == 2 ? FX_READ_EOF : FX_OPEN_FAIL; snprintf(t->name, sizeof t->name, "%s", name); t->at = ch(SF, 3) == 0 ? ch(SF, f->n + 1) : ch(SF, (f->n < 60 ? f->n : 60) + 1); vfs_nfaults = 1; }
    snprintf(what, sizeof what, "image %d (%s, %s, %s%s)", i, api == 0 ? "read" : api == 1 ? "read as floats" : "extract", fmt ? "binary" : "text", d ? dmg[d] : "undamaged", fx == 1 ? ", input error" : fx == 2 ? ", early end" : fx == 3 ? ", cannot be opened" : "");
    sim_log("%s: %d x %d max %d, %zu bytes, damage at %zu, fault at %llu, chunk %d buffer %d", what, w, h, max, f->n, at, (unsigned long long)t->at, vfs_chunk, vfs_bufmode);
    if (d || fx) sim_nontrivial();
    size_t avail = f->n; if (fx == 2 && t->at < avail) avail = (size_t)t->at;
    VlPgmImage pi; memset(&pi, 0xEE, sizeof pi); u64 m0 = mem_mark(); int err = 0;
    if (api < 2) {
      void *sentinel = &pi, *data = sentinel; Img im; int v = parse(f->b, avail, &im); size_t need = im.need;
      if (api == 0) err = vl_pgm_read_new(name, &pi, (vl_uint8 **)&data); else err = vl_pgm_read_new_f(name, &pi, (float **)&data);
      int fired = t->fired; sim_event(mix64((u64)err, (u64)v * 4 + (u64)fired));
      sim_stat(err ? "read.failed" : "read.ok", 1);
      if (!err) {
        if (v == P_FAIL) sim_violation("accepted", "%s: reported success, but the stream holds no complete image", what);
        if (fx == 3) sim_violation("accepted", "%s: reported success, but the file could not be opened", what);
        if (fx == 1 && v != P_ANY && t->at < need) sim_violation("accepted", "%s: reported success, but input failed at byte %llu of %zu", what, (unsigned long long)t->at, need);
        int lv; u64 ser; size_t off, size; if (!mem_find(data, &lv, &ser, &off, &size) || off || !lv) sim_violation("bad-result", "%s: reported success, but the pixels are not a block of the configured memory functions", what);
        if (v != P_ANY) { size_t px = (size_t)im.w * (size_t)im.h * (api == 1 ? 4 : im.max > 255 ? 2 : 1); if (size < px) sim_violation("bad-result", "%s: the block has %zu bytes for %zu", what, size, px); check_px(what, &im, &pi, data, api == 1); }
        vl_free(data);
      } else {
        if (v == P_OK && !fired && im.max < 256) sim_violation("rejected", "%s: failed with %d (%s) although the image is complete", what, err, vl_get_last_error_message());
        int lv; u64 ser; size_t off, size; if (data && data != sentinel && mem_find(data, &lv, &ser, &off, &size) && !lv) sim_violation("dangling", "%s: failed, and handed out a block that was released", what);
        if (vl_get_last_error() != err) sim_violation("error-status", "%s: returned %d, the thread's last error is %d", what, err, vl_get_last_error());
      }
      free(im.px);
    } else {
      FILE *s = sim_fopen(name, "rb"); size_t p = 0;
      if (s) {
        for (int k = 0; k < nimg; k++) {
          Img im; int v = p <= avail ? parse(f->b + p, avail - p, &im) : P_FAIL; size_t need = v == P_FAIL || v == P_ANY ? 0 : p + im.need; Ins ins = {0}; void *data = 0;
          if (p > avail) im.px = 0;
          err = vl_pgm_extract_head(s, &pi); size_t px = 0, bytes = 0; int stop = 1;
          if (!err) {
            px = vl_pgm_get_npixels(&pi); bytes = px * vl_pgm_get_bpp(&pi);
            if (px > 4000000) { free(im.px); sim_stat("extract.too_large_to_try", 1); break; }
            data = in_out(&ins, bytes, 2); err = vl_pgm_extract_data(s, &pi, data);
          }
          sim_event(mix64((u64)err, (u64)v * 4 + (u64)t->fired)); sim_stat(err ? "read.failed" : "read.ok", 1);
          if (!err) {
            if (v == P_FAIL) sim_violation("accepted", "%s: image %d of the stream: reported success, but the stream holds no complete image", what, k);
            if (fx == 1 && v != P_ANY && t->at < need) sim_violation("accepted", "%s: image %d of the stream: reported success, but input failed at byte %llu of %zu", what, k, (unsigned long long)t->at, need);
            if (v != P_ANY) { check_px(what, &im, &pi, data, 0); p = need; stop = !im.raw; }
            if (v != P_ANY && im.raw && ftell(s) != (long)p) sim_violation("position", "%s: after image %d the stream is at %ld instead of %zu", what, k, ftell(s), p);
          } else {
            if (v == P_OK && !t->fired) sim_violation("rejected", "%s: image %d of the stream failed with %d (%s) although it is complete", what, k, err, vl_get_last_error_message());
            if (vl_get_last_error() != err) sim_violation("error-status", "%s: returned %d, the thread's last error is %d", what, err, vl_get_last_error());
          }
          in_end(&ins); free(im.px); if (stop) break;
        }
        sim_fclose(s);
      } else if (fx != 3) sim_harness_error("cannot open");
    }
    no_rest(what, m0); vfs_nfaults = 0;
  }
  no_rest("at the end", mark);
}
/* ------------------------------------------------ C10 */
void run_C10(void) {
  Env e; env_draw(&e); env_use(&e); mem_use_allocator((int)ch(SE, 2) ? OWN_B : OWN_A); u64 mark = mem_mark();
  static const int bm[] = {0, 1, 2, 7, 64, 5000}; vfs_bufmode = bm[ch(SE, 6)];
  int n = 1 + (int)ch(SW, 3), samename = (int)ch(SW, 2);
  for (int i = 0; i <= n; i++) {
    int last = i == n, api = (int)ch(SW, 4), w = 1 + (int)ch(SW, 14), h = 1 + (int)ch(SW, 14), nimg = 1; u64 seed = ch(SW, 1u << 20); Rng r = rng_make(seed); char name[32], what[160];
    if (ch(SW, 8) == 7) { w *= 9; h *= 8; }
    if (api >= 2) nimg = 1 + (int)ch(SW, 2);
    int max = api < 2 ? 255 : api == 3 ? 256 + (int)ch(SW, 65280) : 1 + (int)ch(SW, 255); size_t px = (size_t)w * (size_t)h;
    snprintf(name, sizeof name, "out%d.pgm", samename ? 0 : i);
    vfs_nfaults = 0; VFault *t = vfs_faults; memset(t, 0, sizeof *t); vfs_capacity = -1;
    int fx = last ? 0 : (int)ch(SF, 7); size_t total = (size_t)nimg * (px * (api == 3 ? 2 : 1) + 16);
    if (fx >= 1 && fx <= 4) { static const int k[] = {0, FX_OPEN_FAIL, FX_WRITE_ENOSPC, FX_WRITE_EIO, FX_CLOSE_FAIL}; t->kind = k[fx]; snprintf(t->name, sizeof t->name, "%s", name); t->at = ch(SF, 3) ? ch(SF, total + 1) : ch(SF, 20); t->once = (int)ch(SF, 2); vfs_nfaults = 1; }
    else if (fx == 5) vfs_capacity = (i64)ch(SF, total + 1);
    static const char *apin[] = {"write", "write floats", "insert", "insert 16 bit"}, *fxn[] = {"", ", cannot be opened", ", medium full", ", output error", ", failing close", ", capacity", ""};
    snprintf(what, sizeof what, "image %d (%s%s)", i, apin[api], fxn[fx]);
    sim_log("%s: %d x %d max %d to %s, fault at %llu once %d capacity %lld buffer %d", what, w, h, max, name, (unsigned long long)t->at, t->once, (long long)vfs_capacity, vfs_bufmode);
    if (fx) sim_nontrivial();
    u64 m0 = mem_mark(); Ins ins = {0}; int err, cap0 = vfs_capacity >= 0; i64 capb = vfs_capacity; (void)capb;
    unsigned *want = malloc(px * (size_t)nimg * sizeof *want); double *lo = malloc(px * sizeof *lo);
    if (api == 0) { u8 *d = in_bytes(&ins, px, 1); gen_image_u8(&r, d, (int)px, w); for (size_t k = 0; k < px; k++) want[k] = d[k]; in_seal(&ins); err = vl_pgm_write(name, d, w, h); }
    else if (api == 1) { float *d = in_f(&ins, px); gen_image_f(&r, d, w, h, 1, 300); float mn = d[0], mx = d[0]; for (size_t k = 0; k < px; k++) { if (d[k] < mn) mn = d[k]; if (d[k] > mx) mx = d[k]; } for (size_t k = 0; k < px; k++) lo[k] = mx > mn ? 255.0 * (d[k] - mn) / ((double)mx - mn) : 0; in_seal(&ins); err = vl_pgm_write_f(name, d, w, h); }
    else {
      FILE *s = sim_fopen(name, "wb"); err = !s;
      for (int k = 0; s && k < nimg && !err; k++) {
        VlPgmImage pi; pi.width = (vl_size)w; pi.height = (vl_size)h; pi.max_value = (vl_size)max; pi.is_raw = VL_TRUE; void *d = in_bytes(&ins, px * (api == 3 ? 2 : 1), 2);
        for (size_t j = 0; j < px; j++) { unsigned v = rng_n(&r, (u32)max + 1); want[(size_t)k * px + j] = v; if (api == 3) ((uint16_t *)d)[j] = (uint16_t)v; else ((u8 *)d)[j] = (u8)v; }
        in_seal(&ins); err = vl_pgm_insert(s, &pi, d);
      }
      if (s && sim_fclose(s) && !err) err = 1; /* the program closes its own stream and sees this failure itself */
      if (api == 3 && !err) sim_stat("write.16bit_ok", 1);
    }
    in_end(&ins); VFile *f = vfs_get(name, 0); int fired = t->fired || (cap0 && vfs_capacity == 0);
    sim_event(mix64((u64)(err != 0), (u64)fired)); sim_event(f ? hash_bytes(f->data, f->n, 1) : 2); sim_stat(err ? "write.failed" : "write.ok", 1);
    if (err && !fired) sim_violation("rejected", "%s: failed with %d (%s) although nothing went wrong", what, err, vl_get_last_error_message());
    if (!err) {
      if (t->fired && (t->kind == FX_CLOSE_FAIL || t->kind == FX_OPEN_FAIL)) sim_violation("accepted", "%s: reported success, but the file could not be %s", what, t->kind == FX_CLOSE_FAIL ? "closed" : "opened");
      size_t p = 0;
      for (int k = 0; k < nimg; k++) {
        Img im; im.px = 0; int v = f && p <= f->n ? parse(f->data + p, f->n - p, &im) : P_FAIL;
        if (v != P_OK) sim_violation("incomplete", "%s: reported success, but the file (%zu bytes) does not hold image %d", what, f ? f->n : 0, k);
        if (im.w != w || im.h != h || im.max != max) sim_violation("incomplete", "%s: reported success, but the file holds %d x %d max %d instead of %d x %d max %d", what, im.w, im.h, im.max, w, h, max);
        for (size_t j = 0; j < px; j++) if (api == 1 ? fabs(im.px[j] - lo[j]) > 1.001 : im.px[j] != want[(size_t)k * px + j]) sim_violation("incomplete", "%s: reported success, but pixel %zu of image %d is %u on the medium instead of %g", what, j, k, im.px[j], api == 1 ? lo[j] : want[(size_t)k * px + j]);
        p += im.need; free(im.px);
      }
      if (p != f->n) sim_violation("incomplete", "%s: reported success, but %zu bytes follow the image", what, f->n - p);
      if (api < 3) { /* and the library reads it back */
        vfs_nfaults = 0; VlPgmImage pi; vl_uint8 *d = 0; int e2 = vl_pgm_read_new(name, &pi, &d); if (e2) sim_violation("read-back", "%s: cannot be read back: %d", what, e2);
        if (api != 1) for (size_t j = 0; j < px; j++) if (d[j] != want[j]) sim_violation("read-back", "%s: pixel %zu reads back as %d instead of %u", what, j, d[j], want[j]);
        vl_free(d);
      }
    }
    free(want); free(lo); no_rest(what, m0); vfs_nfaults = 0; vfs_capacity = -1;
  }
  no_rest("at the end", mark);
}
