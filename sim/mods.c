#include "mods.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
extern const Mod mods_feat[], mods_ml[], mods_misc[];
int mods_verbosity, mods_lowalign, mods_partial;
static const Mod *const *table(int *n) {
  static const Mod *t[64]; static int k;
  if (!k) { const Mod *const l[] = {mods_misc, mods_ml, mods_feat}; for (int g = 0; g < 3; g++) for (const Mod *m = l[g]; m->name; m++) t[k++] = m; }
  *n = k; return t;
}
const Mod *mod_find(const char *name) { int n; const Mod *const *t = table(&n); for (int i = 0; i < n; i++) if (!strcmp(t[i]->name, name)) return t[i]; return 0; }
const Mod *mod_draw(unsigned mask) { int n, k = 0; const Mod *const *t = table(&n); const Mod *c[64]; const char *only = getenv("SIM_ONLY"); /* a tool for studying one module */ for (int i = 0; i < n; i++) if ((t[i]->flags & mask) == mask) if (!only || strstr(only, t[i]->name)) c[k++] = t[i]; if (!k) for (int i = 0; i < n; i++) if ((t[i]->flags & mask) == mask) c[k++] = t[i]; return c[ch(SW, k)]; }
void plan_clear(Plan *p) { memset(p, 0, sizeof *p); }

static void *in_add(Ins *s, size_t n, size_t elem, int seal) {
  if (s->k == INS_MAX) sim_harness_error("too many caller arrays");
  size_t off = mods_lowalign && elem <= 8 ? elem * ((size_t)mods_lowalign % (16 / elem)) : 0;
  u8 *b = mem_alloc_aligned(n, OWN_USER, off);
  if (!b) sim_harness_error("no memory for caller arrays");
  s->p[s->k] = b; s->n[s->k] = n; s->sealed[s->k] = seal ? 2 : 0; s->k++;
  return b;
}
void *in_bytes(Ins *s, size_t n, size_t elem) { return in_add(s, n, elem, 1); }
void *in_out(Ins *s, size_t n, size_t elem) { return in_add(s, n, elem, 0); }
void in_seal(Ins *s) { for (int i = 0; i < s->k; i++) if (s->sealed[i] == 2) { s->sealed[i] = 1; s->h[i] = hash_bytes(s->p[i], s->n[i], 3); } }
void in_check(Ins *s) { for (int i = 0; i < s->k; i++) if (s->sealed[i] == 1 && hash_bytes(s->p[i], s->n[i], 3) != s->h[i]) sim_violation("input-modified", "an input array of the caller (%zu bytes) was modified", s->n[i]); }
void in_end(Ins *s) { in_check(s); for (int i = 0; i < s->k; i++) mem_free_own(s->p[i], OWN_USER); s->k = 0; }

void gen_image_f(Rng *r, float *im, int w, int h, int c, float range) {
  int kind = (int)rng_n(r, 7);
  for (int k = 0; k < c; k++) {
    float *p = im + (size_t)k * w * h; double fx = rng_d(r) * .8, fy = rng_d(r) * .8, ph = rng_d(r) * 6;
    int nb = 3 + (int)rng_n(r, 12); double bx[16], by[16], bs[16], ba[16]; for (int i = 0; i < nb; i++) { bx[i] = rng_d(r) * w; by[i] = rng_d(r) * h; bs[i] = 1.2 + rng_d(r) * 5; ba[i] = rng_d(r) - .3; }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      double v;
      switch (kind) {
        case 0: v = rng_d(r); break;
        case 1: v = .5 + .5 * sin(fx * x + fy * y + ph); break;
        case 2: v = (x / 5 + y / 7) % 2; break;
        case 3: v = .25; break;
        case 4: v = (double)(x + y) / (w + h); break;
        default: v = .3; for (int i = 0; i < nb; i++) { double dx = x - bx[i], dy = y - by[i]; v += ba[i] * exp(-(dx * dx + dy * dy) / (2 * bs[i] * bs[i])); } if (kind == 6) v += .1 * rng_d(r); break;
      }
      p[(size_t)y * w + x] = (float)(v * range);
    }
  }
}
void gen_image_u8(Rng *r, u8 *im, int n, int w) {
  int kind = (int)rng_n(r, 5); int a = 3 + (int)rng_n(r, 9);
  for (int i = 0; i < n; i++) { int x = i % w, y = i / w; im[i] = (u8)(kind == 0 ? rng_n(r, 256) : kind == 1 ? ((x / a + y / a) % 2 ? 200 : 40) : kind == 2 ? 77 : kind == 3 ? (int)(128 + 100 * sin(x * .5) * cos(y * .4)) : (int)(128 + 90 * sin(x * .3 + y * .2)) + (int)rng_n(r, 30)); }
}
void gen_data_d(Rng *r, double *x, int dim, int n, int kind) {
  for (int i = 0; i < n; i++) {
    if (kind == 3 && i > 0 && rng_n(r, 2)) { memcpy(x + (size_t)i * dim, x + (size_t)rng_n(r, (u32)i) * dim, 8 * (size_t)dim); continue; }
    for (int k = 0; k < dim; k++) x[(size_t)i * dim + k] = kind == 1 ? (double)rng_n(r, 5) : kind == 2 ? (double)(i % 4) * (k % 3 + 1) + rng_d(r) * .3 : (rng_d(r) - .5) * 2;
  }
}
void data_convert(const double *x, void *y, size_t n, int isd) { if (isd) memcpy(y, x, n * 8); else for (size_t i = 0; i < n; i++) ((float *)y)[i] = (float)x[i]; }
