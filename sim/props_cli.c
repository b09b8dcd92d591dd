/* The command line tools on a simulated medium: truthful exit status (C11), files independent of each other (C12). */
#define _GNU_SOURCE
#include "jobs.h"
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <getopt.h>
#include <vl/generic.h>
#include <vl/sift.h>
#include <vl/mser.h>

int sift_main(int, char **); int mser_main(int, char **);

/* ------------------------------------------------ what the tools call */
static jmp_buf cli_jmp; static int cli_running, cli_status; static u64 cli_errs, cli_allocs, cli_fail_at; static char cli_alloc_hit[1200]; static char cli_last_err[400];
static int refuse(size_t n) {
  cli_allocs++; if (n >= MEM_HUGE) { errno = ENOMEM; return 1; }
  if (cli_fail_at && cli_allocs == cli_fail_at) { sim_stat("fault.alloc_refused", 1); sim_nontrivial(); sim_log("  memory: request %llu of %zu bytes refused", (unsigned long long)cli_allocs, n); snprintf(cli_alloc_hit, sizeof cli_alloc_hit, "%s", vfs_last_read); errno = ENOMEM; return 1; }
  return 0;
}
void *cli_malloc(size_t n) { return refuse(n) ? 0 : mem_alloc(n, OWN_RAW, 0); }
void *cli_calloc(size_t a, size_t b) { return b && a > MEM_HUGE / b ? 0 : refuse(a * b) ? 0 : mem_alloc(a * b, OWN_RAW, 1); }
void *cli_realloc(void *p, size_t n) { return refuse(n) ? 0 : mem_realloc_own(p, n, OWN_RAW); }
void cli_free(void *p) { mem_free_own(p, OWN_RAW); }
void cli_exit(int s) { if (!cli_running) sim_harness_error("exit outside of a tool"); cli_status = s; longjmp(cli_jmp, 1); }
void cli__exit(int s) { cli_exit(s); }
void cli_abort(void) { sim_violation("abort", "the tool aborted"); }
void cli___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)fn; sim_violation("assert", "%s:%u: %s", f, l, e); }
static int con(FILE *f) { return f == stdout || f == stderr; }
static int say(FILE *f, const char *fmt, va_list ap) { if (!con(f)) return vfprintf(f, fmt, ap); char b[6000]; int k = vsnprintf(b, sizeof b, fmt, ap); if (f == stderr) { cli_errs++; snprintf(cli_last_err, sizeof cli_last_err, "%s", b); } return k; }
int cli_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = say(stdout, fmt, ap); va_end(ap); return k; }
int cli_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = say(f, fmt, ap); va_end(ap); return k; }
int cli_puts(const char *s) { (void)s; return 1; }
int cli_putchar(int c) { return c; }
int cli_fputs(const char *s, FILE *f) { if (con(f)) { if (f == stderr) cli_errs++; return 1; } return fputs(s, f); }
int cli_fputc(int c, FILE *f) { return con(f) ? c : fputc(c, f); }
size_t cli_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (con(f)) { if (f == stderr) cli_errs++; return n; } return fwrite(p, s, n, f); }
int cli_fflush(FILE *f) { return !f || con(f) ? 0 : fflush(f); }
void cli_perror(const char *s) { (void)s; cli_errs++; }
char *cli_getenv(const char *n) { (void)n; return 0; }
#define NO(n, r, a) r n a { sim_violation("system-call", "the tool calls %s", #n + 4); }
NO(cli_rename, int, (const char *a, const char *b)) NO(cli_remove, int, (const char *a)) NO(cli_unlink, int, (const char *a)) NO(cli_system, int, (const char *a)) NO(cli_freopen, FILE *, (const char *a, const char *b, FILE *c)) NO(cli_tmpfile, FILE *, (void))

/* ------------------------------------------------ command */
#define MAXI 4
typedef struct { u8 *b; size_t n, cap; char name[64]; int put; } In;
typedef struct { int tool, bad, big; char opt[24][1200]; int nopt; char img[MAXI][64]; int nimg; In in[2 * MAXI]; int nin; } Cmd;
static Cmd C; extern int optreset __attribute__((weak));
static int run_tool(const Cmd *c, int only) { /* only >= 0: that image alone */
  static char a0[] = "tool"; char *argv[64]; int n = 0; argv[n++] = a0; static char copy[40][1200];
  for (int i = 0; i < c->nopt; i++) { strcpy(copy[n], c->opt[i]); argv[n] = copy[n]; n++; }
  for (int i = 0; i < c->nimg; i++) if (only < 0 || only == i) { strcpy(copy[n], c->img[i]); argv[n] = copy[n]; n++; }
  argv[n] = 0; optind = 1; opterr = 0; if (&optreset) optreset = 1; /* the library's own getopt_long, as at the start of a process */ cli_running = 1; cli_allocs = 0; paint_stack();
  if (!setjmp(cli_jmp)) cli_status = (c->tool ? mser_main : sift_main)(n, argv);
  cli_running = 0; return cli_status;
}
static void put_inputs(const Cmd *c) { for (int i = 0; i < c->nin; i++) if (c->in[i].put) vfs_put(c->in[i].name, c->in[i].b, c->in[i].n); }
static int is_input(const Cmd *c, const char *n) { for (int i = 0; i < c->nin; i++) if (!strcmp(c->in[i].name, n)) return 1; return 0; }
static void after(const char *when, u64 mark, int st) {
  char b[400]; if (vfs_open_streams) sim_violation("stream", "%s: %d streams left open", when, vfs_open_streams);
  if (mem_live_since(OWN_RAW, mark)) { mem_describe_live(OWN_RAW, mark, b, sizeof b); sim_violation("leak", "%s: memory of the tool not released: %s", when, b); }
  check_all_released(when, mark); if (st < 0 || st > 255) sim_violation("status", "%s: exit status %d", when, st);
}
/* ------------------------------------------------ what the manual says the tools write, made from the library alone */
int pgm_model(const u8 *b, size_t n, unsigned **px, int *w, int *h, int *max);
typedef struct { int on, bin, over; char pat[1200]; u8 *b; size_t n, cap; char name[4096]; } Spec;
static struct { char name[1200]; u8 *b; size_t n; } want[80]; static int nwant;
static void wput(Spec *f, const void *p, size_t n) { if (f->n + n >= f->cap) f->b = realloc(f->b, f->cap = 2 * (f->n + n) + 1000); memcpy(f->b + f->n, p, n); f->n += n; }
static void wputf(Spec *f, const char *fmt, ...) { char t[1400]; va_list ap; va_start(ap, fmt); int k = vsnprintf(t, sizeof t, fmt, ap); va_end(ap); wput(f, t, (size_t)k); }
static void wnum(Spec *f, double x) { if (!f->bin) { wputf(f, "%g ", x); return; } u8 t[8]; u64 q; memcpy(&q, &x, 8); for (int z = 0; z < 8; z++) t[z] = (u8)(q >> (56 - 8 * z)); wput(f, t, 8); }
static void wbyte(Spec *f, u8 x) { if (f->bin) wput(f, &x, 1); else wputf(f, "%d ", x); }
static const char *val(const char *o, int *given) { /* last value of an option, 0: none */
  const char *v = 0; *given = 0; size_t k = strlen(o);
  for (int i = 0; i < C.nopt; i++) if (!strncmp(C.opt[i], o, k)) { if (o[1] != '-' && !C.opt[i][k]) { v = C.opt[i + 1]; *given = 1; } else if (o[1] == '-' && (!C.opt[i][k] || C.opt[i][k] == '=')) { *given = 1; if (C.opt[i][k]) v = C.opt[i] + k + 1; } }
  return v;
}
static double numopt(const char *o, double def) { int g; const char *v = val(o, &g); return v ? strtod(v, 0) : def; }
static void spec(Spec *f, const char *o, const char *def, int on) { /* every occurrence counts: the protocol of one and the name of another may hold */
  memset(f, 0, sizeof *f); f->on = on; strcpy(f->pat, def); size_t k = strlen(o);
  for (int i = 0; i < C.nopt; i++) if (!strncmp(C.opt[i], o, k) && (!C.opt[i][k] || C.opt[i][k] == '=')) {
    f->on = 1; const char *v = C.opt[i][k] ? C.opt[i] + k + 1 : ""; if (!strncmp(v, "ascii://", 8)) f->bin = 0, v += 8; else if (!strncmp(v, "bin://", 6)) f->bin = 1, v += 6;
    if (*v) { strcpy(f->pat, v); if (strlen(v) >= 1024) f->over = 2; } }
}
static void expand(Spec *f, const char *base) {
  char *q = f->name, *e = f->name + sizeof f->name - 1; for (const char *p = f->pat; *p && q < e; p++) if (*p == '%') { size_t k = strlen(base); if (q + k >= e) break; memcpy(q, base, k); q += k; } else *q++ = *p;
  *q = 0; if (f->on && strlen(f->name) >= 1024) f->over = 1;
}
static void deliver(Spec *f) { if (!f->on) return; if (nwant >= 80) sim_harness_error("too many files"); strcpy(want[nwant].name, f->name); want[nwant].b = f->b; want[nwant++].n = f->n; }
static int by_scale(const void *a, const void *b) { double x = ((double const *)a)[2] - ((double const *)b)[2]; return x < 0 ? -1 : x > 0; }
/* 0: the tool must fail, 1: it must write the files in want[], -1: not settled */
static int model(int img) {
  nwant = 0; if (C.bad) return 0;
  char base[64]; const char *s = strrchr(C.img[img], '/'); strcpy(base, s ? s + 1 : C.img[img]); char *dot = strrchr(base, '.'); if (dot) *dot = 0;
  In *im = 0, *fr = 0; for (int q = 0; q < C.nin; q++) if (!strcmp(C.in[q].name, C.img[img])) { im = C.in + q; if (q + 1 < C.nin && strstr(C.in[q + 1].name, ".ifr")) fr = C.in + q + 1; }
  Spec out, frm, dsc, met, gss, piv; int g;
  if (C.tool) { memset(&out, 0, sizeof out); memset(&dsc, 0, sizeof dsc); memset(&gss, 0, sizeof gss); spec(&piv, "--seeds", "%.mser", 0); spec(&frm, "--frames", "%.frame", 0); if (!piv.on && !frm.on) frm.on = 1; }
  else { memset(&piv, 0, sizeof piv); spec(&out, "--output", "%.sift", 1); val("--output", &g); spec(&frm, "--frames", "%.frame", 0); spec(&dsc, "--descriptors", "%.descr", 0); spec(&gss, "--gss", "%.pgm", 0); if (!g && (frm.on || dsc.on)) out.on = 0; }
  spec(&met, "--meta", "%.meta", 0);
  expand(&out, base); expand(&frm, base); expand(&dsc, base); expand(&met, base); expand(&piv, base);
  if (out.over || frm.over || dsc.over || met.over || piv.over) return 0;
  if (numopt("--magnif", 3) < 1) return 0;
  if (!im->put) return 0;
  unsigned *px; int w, h, max; int k = pgm_model(im->b, im->n, &px, &w, &h, &max); if (k < 1) return k;
  if (max > 255) { free(px); return 0; }
  double *key = 0; int nkey = 0; val("--read-frames", &g);
  if (g) {
    if (!fr || !fr->put) return 0;
    int bin = !strncmp(val("--read-frames", &g), "bin:", 4); if (bin && fr->n % 32) return 0;
    key = malloc((fr->n + 4) * sizeof *key); /* more than enough */
    if (bin) for (size_t i = 0; i < fr->n; i += 8) { u64 q = 0; for (int z = 0; z < 8; z++) q = q << 8 | fr->b[i + (size_t)z]; memcpy(key + nkey++, &q, 8); }
    else { char *t = malloc(fr->n + 1); memcpy(t, fr->b, fr->n); t[fr->n] = 0; for (char *p = strtok(t, " \n"); p; p = strtok(0, " \n")) { char *e; key[nkey++] = strtod(p, &e); if (*e) return 0; } free(t); if (nkey % 4) return 0; }
    nkey /= 4; qsort(key, (size_t)nkey, 4 * sizeof *key, by_scale);
  }
  size_t np = (size_t)w * (size_t)h;
  if (C.tool) {
    for (int inv = 0; inv < 2; inv++) {
      if (!(int)numopt(inv ? "--bright-on-dark" : "--dark-on-bright", 1)) continue;
      vl_mser_pix *d = malloc(np); for (size_t i = 0; i < np; i++) d[i] = (vl_mser_pix)(inv ? 255 - px[i] : px[i]); int dims[2] = {w, h}; VlMserFilt *f = vl_mser_new(2, dims); double v;
      if ((v = numopt("-d", -1)) >= 0) vl_mser_set_delta(f, (vl_mser_pix)v);
      if ((v = numopt("--max-area", -1)) >= 0) vl_mser_set_max_area(f, v);
      if ((v = numopt("--min-area", -1)) >= 0) vl_mser_set_min_area(f, v);
      if ((v = numopt("--max-variation", -1)) >= 0) vl_mser_set_max_variation(f, v);
      if ((v = numopt("--min-diversity", -1)) >= 0) vl_mser_set_min_diversity(f, v);
      vl_mser_process(f, d); vl_uint const *rg = vl_mser_get_regions(f); for (int i = 0; i < (int)vl_mser_get_regions_num(f); i++) wputf(&piv, "%d ", inv ? -(int)rg[i] : (int)rg[i]);
      if (frm.on) { vl_mser_ell_fit(f); float const *e = vl_mser_get_ell(f); int n = (int)vl_mser_get_ell_num(f), dof = (int)vl_mser_get_ell_dof(f); for (int i = 0; i < n; i++) { for (int j = 0; j < dof; j++) wputf(&frm, "%f ", e[i * dof + j]); wputf(&frm, "\n"); } }
      vl_mser_delete(f); free(d);
    }
    wputf(&met, "<mser\n  input = '%s'\n", C.img[img]); if (piv.on) wputf(&met, "  seeds = '%s'\n", piv.name); if (frm.on) wputf(&met, "  frames = '%s'\n", frm.name); wputf(&met, ">\n");
  } else {
    vl_sift_pix *d = malloc(np * sizeof *d); for (size_t i = 0; i < np; i++) d[i] = (vl_sift_pix)px[i]; int force = 0; val("--orientations", &force); double v;
    VlSiftFilt *f = vl_sift_new(w, h, (int)numopt("-O", -1), (int)numopt("--levels", 3), (int)numopt("--first-octave", -1)); int at = 0;
    if ((v = numopt("--edge-thresh", -1)) >= 0) vl_sift_set_edge_thresh(f, v);
    if ((v = numopt("--peak-thresh", -1)) >= 0) vl_sift_set_peak_thresh(f, v);
    if ((v = numopt("--magnif", -1)) >= 0) vl_sift_set_magnif(f, v);
    for (int e = vl_sift_process_first_octave(f, d); !e; e = vl_sift_process_next_octave(f)) {
      int o = vl_sift_get_octave_index(f), ow = vl_sift_get_octave_width(f), oh = vl_sift_get_octave_height(f), n = nkey; VlSiftKeypoint const *ks = 0;
      if (gss.on) for (int l = 0; l < vl_sift_get_nlevels(f); l++) { Spec t = gss; char b2[100]; snprintf(b2, sizeof b2, "%s_%02d_%03d", base, o, l); expand(&t, b2); vl_sift_pix const *p = vl_sift_get_octave(f, l); wputf(&t, "P5\n%d\n%d\n%d\n", ow, oh, 255); for (int i = 0; i < ow * oh; i++) { u8 c = (u8)p[i]; wput(&t, &c, 1); } deliver(&t); }
      if (!key) { vl_sift_detect(f); ks = vl_sift_get_keypoints(f); n = vl_sift_get_nkeypoints(f); at = 0; }
      for (; at < n; at++) {
        double an[4]; int na; VlSiftKeypoint ik; VlSiftKeypoint const *q = &ik;
        if (key) { vl_sift_keypoint_init(f, &ik, key[4 * at], key[4 * at + 1], key[4 * at + 2]); if (ik.o != o) break; if (force) na = vl_sift_calc_keypoint_orientations(f, an, q); else { an[0] = key[4 * at + 3]; na = 1; } }
        else { q = ks + at; na = vl_sift_calc_keypoint_orientations(f, an, q); }
        for (int j = 0; j < na; j++) {
          vl_sift_pix de[128] = {0}; if (out.on || dsc.on) vl_sift_calc_keypoint_descriptor(f, de, q, an[j]);
          for (int z = 0; z < 2; z++) { Spec *t = z ? &frm : &out; if (t->on) { wnum(t, q->x); wnum(t, q->y); wnum(t, q->sigma); wnum(t, an[j]); } if (!z && t->on) for (int l = 0; l < 128; l++) wbyte(t, (u8)(512.0 * de[l])); if (!t->bin) wputf(t, "\n"); }
          if (dsc.on) { for (int l = 0; l < 128; l++) { double x = 512.0 * de[l]; wbyte(&dsc, (u8)(x < 255 ? x : 255)); } if (!dsc.bin) wputf(&dsc, "\n"); }
        }
      }
    }
    vl_sift_delete(f); free(d);
    wputf(&met, "<sift\n  input       = '%s'\n", C.img[img]); if (dsc.on) wputf(&met, "  descriptors = '%s'\n", dsc.name); if (frm.on) wputf(&met, "  frames      = '%s'\n", frm.name); wputf(&met, ">\n");
  }
  deliver(&out); deliver(&frm); deliver(&dsc); deliver(&met); deliver(&piv); free(px); free(key); return 1;
}
static void against_model(int img, int st) {
  int k = model(img); if (k < 0) { sim_stat("images.not_settled", 1); return; }
  sim_stat(k ? "images.model_writes" : "images.model_fails", 1);
  if (!k) { if (!st) sim_violation("status", "'%s' alone: status 0, but it cannot be processed as asked", C.img[img]); return; }
  if (st) sim_violation("status", "'%s' alone: status %d (%s), but there is nothing wrong with it", C.img[img], st, cli_last_err);
  for (int i = 0; i < nwant; i++) {
    VFile *f = vfs_get(want[i].name, 0); if (!f || !f->exists) sim_violation("status", "'%s' alone: status 0, but '%.80s' was not written", C.img[img], want[i].name);
    if (f->n != want[i].n || memcmp(f->data, want[i].b, f->n)) { size_t d = 0; while (d < f->n && d < want[i].n && f->data[d] == want[i].b[d]) d++; sim_violation("incomplete", "'%s' alone: status 0, '%.80s' has %zu bytes, expected %zu, first difference at %zu", C.img[img], want[i].name, f->n, want[i].n, d); }
  }
}
/* the run of one image alone, nothing disturbed: status, then name and contents of every file written */
typedef struct { int only, check; } RefArg;
static void ref_run(void *a, Out *o) {
  RefArg *r = a; put_inputs(&C); u64 mark = mem_mark(); int st = run_tool(&C, r->only); after("undisturbed run", mark, st); out_i(o, "status", st); out_s(o, "error", st ? cli_last_err : "");
  if (r->check) against_model(r->only, st);
  for (int i = 0; i < vfs_nfiles(); i++) { VFile *f = vfs_nth(i); if (f->exists && !is_input(&C, f->name)) { out_s(o, "name", f->name); out_u8(o, "data", f->data, f->n); } }
}
/* ------------------------------------------------ inputs */
static void put(In *b, const void *p, size_t n) { if (b->n + n >= b->cap) b->b = realloc(b->b, b->cap = 2 * (b->n + n) + 1000); memcpy(b->b + b->n, p, n); b->n += n; }
static void putf(In *b, const char *fmt, ...) { char t[300]; va_list ap; va_start(ap, fmt); int k = vsnprintf(t, sizeof t, fmt, ap); va_end(ap); put(b, t, (size_t)k); }
static void damage(In *f, const char **what) {
  switch (ch(SF, 6)) {
    case 0: f->n = f->n ? ch(SF, f->n) : 0; *what = "cut"; break;
    case 1: if (f->n) { f->n -= 1 + ch(SF, f->n > 4 ? 4 : f->n); } *what = "cut at the end"; break;
    case 2: { size_t k = 1 + ch(SF, 3); for (size_t i = 0; i < k && f->n; i++) f->b[ch(SF, f->n < 40 ? f->n : 40)] = (u8)ch(SF, 256); *what = "start damaged"; break; }
    case 3: if (f->n) f->b[ch(SF, f->n)] = (u8)ch(SF, 256); *what = "a byte changed"; break;
    case 4: f->n = 0; *what = "empty"; break;
    default: f->put = 0; *what = "missing"; }
  sim_stat("fault.input_damaged", 1);
}
static void gen_pgm(In *f, Rng *r, int w, int h, int raw, int max) {
  u8 *im = malloc((size_t)(w * h)); gen_image_u8(r, im, w * h, w); putf(f, "P%d%s%d %d\n%d\n", raw ? 5 : 2, rng_n(r, 4) ? "\n" : "\n# made by hand\n", w, h, max);
  for (int i = 0; i < w * h; i++) { unsigned v = max >= 255 ? im[i] : im[i] % (unsigned)(max + 1); if (!raw) putf(f, "%u%s", v, (i + 1) % w ? " " : "\n"); else if (max > 255) { u8 t[2] = {(u8)(v >> 8), (u8)v}; put(f, t, 2); } else { u8 t = (u8)v; put(f, &t, 1); } }
  free(im);
}
static void opt(const char *fmt, ...) { if (C.nopt >= 24) return; va_list ap; va_start(ap, fmt); vsnprintf(C.opt[C.nopt++], sizeof C.opt[0], fmt, ap); va_end(ap); }
static void filespec(const char *o, const char *ext, int ascii_only, int k) { /* drawn protocol and pattern */
  static const char *pr[] = {"", "ascii://", "bin://"}; int p = (int)ch(SW, ascii_only ? 2 : 3);
  switch (ch(SW, 4)) { case 0: if (p) opt("--%s=%s", o, pr[p]); else opt("--%s", o); break; case 1: opt("--%s=%s%%.%s", o, pr[p], ext); break; case 2: opt("--%s=%sout/%%_%d.%s", o, pr[p], k, ext); break; default: opt("--%s=%s%%%%-%s", o, pr[p], ext); }
}
static void draw(int mult) {
  memset(&C, 0, sizeof C); C.tool = (int)ch(SW, 2); int clean = (int)ch(SF, 2), bad_arg = ch(SF, 40) == 39 && !clean, ifr = 0, ifrbin = 0;
  if (C.tool == 0) {
    if (ch(SW, 3)) { static const char *pr[] = {"", "ascii://", "bin://"}; opt("--output=%s%%%s", pr[ch(SW, 3)], ch(SW, 2) ? ".key" : ".sift"); }
    if (ch(SW, 3) == 2) filespec("frames", "frm", 0, 1);
    if (ch(SW, 3) == 2) filespec("descriptors", "dsc", 0, 2);
    if (ch(SW, 3) == 2) filespec("meta", "met", 1, 3);
    if (ch(SW, 4) == 3) { if (ch(SW, 2)) opt("--gss=gss/%%.pgm"); else opt("--gss"); }
    if (ch(SW, 3) == 2) { opt("-O"); opt("%d", 1 + (int)ch(SW, 4)); }
    if (ch(SW, 3) == 2) { opt("--levels=%d", 1 + (int)ch(SW, 5)); }
    if (ch(SW, 3) == 2) { opt("--first-octave=%d", (int)ch(SW, 3) - 1); }
    if (ch(SW, 4) == 3) opt("--edge-thresh=%g", chd(SW, 1, 20));
    if (ch(SW, 4) == 3) opt("--peak-thresh=%g", chd(SW, 0, 10));
    if (ch(SW, 4) == 3) opt("--magnif=%g", chd(SW, .5, 6));
    if (ch(SW, 5) == 4) opt("--orientations");
    if (ch(SW, 3) == 2) { ifr = 1; ifrbin = (int)ch(SW, 2); opt("--read-frames=%s%%.ifr", ifrbin ? "bin://" : ch(SW, 2) ? "ascii://" : ""); }
    if (bad_arg) { static const char *b[] = {"--levels=-1", "--octaves=x", "--frames=ftp://%", "--no-such-option", "--magnif=", "--edge-thresh=0x", "--meta=bin://%.meta", "--levels=", "--peak-thresh=", "--first-octave=", "--octaves="}; opt("%s", b[ch(SF, 11)]); }
  } else {
    if (ch(SW, 2)) filespec("frames", "frm", 1, 1);
    if (ch(SW, 2)) filespec("seeds", "sds", 1, 2);
    if (ch(SW, 3) == 2) filespec("meta", "met", 1, 3);
    if (ch(SW, 3) == 2) { opt("-d"); opt("%d", (int)ch(SW, 40)); }
    if (ch(SW, 3) == 2) opt("--max-area=%g", chd(SW, 0, 1));
    if (ch(SW, 3) == 2) opt("--min-area=%g", chd(SW, 0, .3));
    if (ch(SW, 3) == 2) opt("--max-variation=%g", chd(SW, 0, 2));
    if (ch(SW, 3) == 2) opt("--min-diversity=%g", chd(SW, 0, 1));
    if (ch(SW, 3) == 2) opt("--bright-on-dark=%d", (int)ch(SW, 2));
    if (ch(SW, 3) == 2) opt("--dark-on-bright=%d", (int)ch(SW, 2));
    if (bad_arg) { static const char *b[] = {"--max-area=2", "--min-area=-1", "--frames=ftp://%", "--no-such-option", "--min-diversity=x", "--bright-on-dark=7", "--delta=-3", "--max-area=", "--min-area=", "--max-variation=", "--min-diversity=", "--delta=", "--dark-on-bright="}; opt("%s", b[ch(SF, 13)]); }
  }
  if (ch(SW, 6) == 5) { opt("-v"); if (ch(SW, 2)) opt("-v"); }
  C.bad = bad_arg; if (ch(SF, 60) == 59 && !clean) { char t[1200]; int n = ch(SF, 2) ? 950 + (int)ch(SF, 150) : 1008 + (int)ch(SF, 12); memset(t, 'x', (size_t)n); memcpy(t + n, "%%%", 4); opt(C.tool ? "--seeds=%s" : "--descriptors=%s", t); }
  C.nimg = mult ? 2 + (int)ch(SW, MAXI - 1) : 1 + (int)ch(SW, MAXI);
  static const char *nf[] = {"i%d.pgm", "dir/i%d.pgm", "i%d", "/abs/d.x/i%d.tar.pgm"};
  for (int i = 0; i < C.nimg; i++) {
    In *f = C.in + C.nin++; Rng r = rng_make(ch(SW, 1 << 20)); int w, h, raw = !ch(SW, 4) ? 0 : 1, max = 255; const char *d = "";
    if (C.tool) { w = 1 + (int)ch(SW, 24); h = 1 + (int)ch(SW, 24); } else { w = 8 + (int)ch(SW, 40); h = 8 + (int)ch(SW, 40); if (ch(SW, 8) == 7) { w = 1 + (int)ch(SW, 8); h = 1 + (int)ch(SW, 8); } }
    if (ch(SW, 8) == 7) max = clean || (int)ch(SW, 2) ? 1 + (int)ch(SW, 254) : 256 + (int)ch(SW, 3000);
    snprintf(C.img[i], sizeof C.img[i], nf[ch(SW, 4)], i); strcpy(f->name, C.img[i]); f->put = 1; gen_pgm(f, &r, w, h, raw, max); if (!clean && ch(SF, 5) == 4) damage(f, &d);
    sim_log("image %s: %d x %d, maximum %d, %s %s", f->name, w, h, max, raw ? "raw" : "ascii", d);
    if (ifr) {
      In *g = C.in + C.nin++; snprintf(g->name, sizeof g->name, "i%d%s.ifr", i, strstr(C.img[i], ".tar") ? ".tar" : ""); g->put = 1; int n = 1 + (int)ch(SW, 6); d = ""; if (i == 0 && ch(SW, 200) == 199) { n = 20010; C.nimg = 1; C.nopt = 0; C.bad = 0; opt("--frames"); opt("--read-frames=%s%%.ifr", ifrbin ? "bin://" : ""); C.big = 1; } /* more than the tool first makes room for */
      for (int k = 0; k < n; k++) { double v[4] = {rng_d(&r) * w, rng_d(&r) * h, .5 + rng_d(&r) * 6, rng_d(&r) * 6.2}; if (k > 40) v[0] = -1e4 - k; if (rng_n(&r, 12) == 0) { v[0] = rng_d(&r) * 3 * w - w; v[1] = rng_d(&r) * 3 * h - h; } for (int j = 0; j < 4; j++) if (ifrbin) { u8 t[8]; u64 q; memcpy(&q, v + j, 8); for (int z = 0; z < 8; z++) t[z] = (u8)(q >> (56 - 8 * z)); put(g, t, 8); } else putf(g, "%.6g%c", v[j], j < 3 ? ' ' : '\n'); }
      if (!clean && ch(SF, 6) == 5) { switch (ch(SF, 3)) { case 0: g->put = 0; d = "missing"; break; case 1: if (ifrbin) { g->n -= 1 + ch(SF, 7); d = "cut inside a number"; } else { g->n -= 4; put(g, " x\n", 3); d = "not a number"; } break; default: if (ifrbin) g->n -= 8; else { putf(g, "1 2 3\n"); } d = "incomplete frame"; } sim_stat("fault.frames_damaged", 1); }
      sim_log("frames %s: %d %s", g->name, n, d);
    }
  }
  char t[1400] = ""; size_t q = 0; for (int i = 0; i < C.nopt && q < 900; i++) q += (size_t)snprintf(t + q, sizeof t - q, " %.200s", C.opt[i]); for (int i = 0; i < C.nimg; i++) q += (size_t)snprintf(t + q, sizeof t - q, " %s", C.img[i]); sim_log("%s%s", C.tool ? "mser" : "sift", t);
  sim_event(hash_bytes(t, strlen(t), 9)); for (int i = 0; i < C.nin; i++) sim_event(hash_bytes(C.in[i].b, C.in[i].n, (u64)C.in[i].put)); sim_stat(C.tool ? "jobs.mser" : "jobs.sift", 1);
}
/* ------------------------------------------------ reference access */
static Out ref[MAXI]; static int ref_st[MAXI];
static int ref_file(int i, size_t k, char *name, const u8 **p, size_t *n) { /* k-th file of image i */
  size_t at = 2 + 2 * k; if (at + 1 >= ref[i].n) return 0; OutItem *a = ref[i].it + at, *b = a + 1; memcpy(name, ref[i].buf + a->off, a->n); name[a->n] = 0; *p = ref[i].buf + b->off; *n = b->n; return 1;
}
static int owns(int i, const char *name) { /* is this a file of image i? */
  if (!strcmp(C.img[i], name)) return 1;
  char t[1200]; const u8 *p; size_t n; for (size_t k = 0; ref_file(i, k, t, &p, &n); k++) if (!strcmp(t, name)) return 1;
  char base[16]; snprintf(base, sizeof base, "i%d", i); const char *s = strrchr(name, '/'); s = s ? s + 1 : name; const char *q = strstr(s, base); return q && !(q[strlen(base)] >= '0' && q[strlen(base)] <= '9'); /* names of outputs contain the base name */
}
static void compare(int i, const char *kind, const char *when, int prefix) {
  char name[1200]; const u8 *p; size_t n;
  for (size_t k = 0; ref_file(i, k, name, &p, &n); k++) {
    VFile *f = vfs_get(name, 0);
    if (!f) { if (prefix) continue; sim_violation(kind, "%s: output '%.80s' of '%s' was not written", when, name, C.img[i]); }
    if (prefix) { if (f->n > n || memcmp(f->data, p, f->n)) sim_violation(kind, "%s: what there is of '%.80s' is not the beginning of the undisturbed output", when, name); continue; }
    if (f->n != n || memcmp(f->data, p, n)) { size_t d = 0; while (d < n && d < f->n && f->data[d] == p[d]) d++; sim_violation(kind, "%s: output '%.80s' of '%s' has %zu bytes instead of %zu, first difference at %zu", when, name, C.img[i], f->n, n, d); }
  }
}
static void cli_run(int c12) {
  Env e; env_draw(&e); env_use(&e); mem_use_allocator(OWN_A); draw(c12); memset(ref, 0, sizeof ref);
  int anyfail = 0; for (int i = 0; i < C.nimg; i++) { RefArg a = {i, !c12}; out_init(ref + i); in_pristine(ref_run, &a, ref + i); i64 st; memcpy(&st, ref[i].buf + ref[i].it[0].off, 8); ref_st[i] = (int)st; if (st) anyfail = 1; sim_log("alone: %s status %d, %d files %.*s", C.img[i], (int)st, (int)(ref[i].n - 2) / 2, (int)ref[i].it[1].n, (char *)ref[i].buf + ref[i].it[1].off); }
  /* now all of them, on a failing medium */
  Env e2; env_draw(&e2); env_use(&e2); put_inputs(&C);
  vfs_chunk = (int)ch(SE, 12); static const int bm[] = {0, 1, 2, 7, 64, 3000}; vfs_bufmode = bm[ch(SE, 6)]; if (C.big) vfs_bufmode = 3000, vfs_chunk = 0;
  int once = 0; vfs_nfaults = (int)ch(SF, 3);
  for (int k = 0; k < vfs_nfaults; k++) {
    VFault *t = vfs_faults + k; int i = (int)ch(SF, (u64)C.nimg); char name[1200]; const u8 *p; size_t n = 0, nf = 0; while (ref_file(i, nf, name, &p, &n)) nf++;
    u64 w = ch(SF, 1 + (nf ? 2 * nf : 0)); memset(t, 0, sizeof *t);
    if (w == 0) { t->kind = ch(SF, 3) == 2 ? FX_OPEN_FAIL : FX_READ_EIO; In *in = 0; int want = (int)ch(SF, 3) == 2; for (int q = 0; q < C.nin; q++) if (!strcmp(C.in[q].name, C.img[i])) { in = C.in + q; if (want && q + 1 < C.nin && strstr(C.in[q + 1].name, ".ifr")) in = C.in + q + 1; } strcpy(t->name, in->name); t->at = ch(SF, in->n + 1); }
    else { static const int wk[] = {FX_WRITE_ENOSPC, FX_WRITE_EIO, FX_CLOSE_FAIL, FX_OPEN_FAIL}; ref_file(i, (w - 1) % nf, name, &p, &n); strcpy(t->name, name); t->kind = wk[ch(SF, 4)]; t->at = ch(SF, 3) ? ch(SF, n + 1) : n ? n - 1 : 0; if ((t->kind == FX_WRITE_EIO || t->kind == FX_WRITE_ENOSPC) && ch(SF, 4) == 3) t->once = once = 1; }
    sim_log("fault %d on '%.80s' at %llu once %d", t->kind, t->name, (unsigned long long)t->at, t->once);
  }
  if (ch(SF, 8) == 7) { u64 tot = 0; for (int i = 0; i < C.nimg; i++) { char name[1200]; const u8 *p; size_t n; for (size_t k = 0; ref_file(i, k, name, &p, &n); k++) tot += n; } vfs_capacity = (i64)ch(SF, tot + 2); sim_log("room for %lld bytes", (long long)vfs_capacity); }
  cli_alloc_hit[0] = 0; cli_fail_at = ch(SF, 8) == 7 ? 1 + ch(SF, 3 * (u64)C.nimg) : 0; vfs_nhits = 0;
  u64 mark = mem_mark(); int st = run_tool(&C, -1); cli_fail_at = 0; after("run", mark, st); sim_event(mix64((u64)st, vfs_opens)); sim_log("status %d %s", st, st ? cli_last_err : "");
  int disturbed = vfs_nhits || cli_alloc_hit[0];
  if (st == 0) for (int i = 0; i < C.nimg; i++) { if (ref_st[i]) sim_violation("status", "status 0, but '%s' alone gives status %d", C.img[i], ref_st[i]); compare(i, "status", "status 0", 0); }
  if (!disturbed && st != 0 && !anyfail) sim_violation("status", "status %d (%s), but each image alone gives status 0", st, cli_last_err);
  if (c12) for (int i = 0; i < C.nimg; i++) {
    int hit = 0; for (int k = 0; k < vfs_nhits; k++) hit |= owns(i, vfs_hits[k]); if (cli_alloc_hit[0]) hit |= owns(i, cli_alloc_hit);
    if (ref_st[i] == 0 && !hit) { compare(i, "disturbed", "image not hit by a fault", 0); sim_stat("images.untouched", 1); if (disturbed || anyfail) { sim_stat("images.untouched_beside_a_failing_one", 1); sim_nontrivial(); } }
    else if (ref_st[i] == 0 && !once) { compare(i, "mixed", "image hit by a fault", 1); sim_stat("images.hit", 1); }
  }
  if (anyfail) sim_nontrivial();
  for (int i = 0; i < C.nimg; i++) out_free(ref + i);
  for (int i = 0; i < C.nin; i++) free(C.in[i].b);
}
void run_C11(void) { cli_run(0); }
void run_C12(void) { cli_run(1); }
