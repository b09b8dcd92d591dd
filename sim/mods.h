/* Library of operations: every public module of the library as plan / make / use / drop. */
#ifndef MODS_H
#define MODS_H
#include "sim.h"
typedef struct { u64 seed; int i[32]; double d[16]; } Plan;
enum { M_RAND = 1, M_SIMD = 2, M_REUSE = 4, M_OMP = 8, M_MSG = 16, M_FILE = 32, M_STATIC = 64 };
typedef struct Mod {
  const char *name; unsigned flags;
  void (*plan_obj)(Plan *op);
  void (*plan_use)(const Plan *op, Plan *up);
  void *(*make)(const Plan *op);
  void (*use)(void *obj, const Plan *op, const Plan *up, Out *o);
  void (*drop)(void *obj);
} Mod;
const Mod *mod_find(const char *name);
const Mod *mod_draw(unsigned mask);        /* drawn from the workload stream, among mods having all flags of mask */

/* caller-owned memory: guarded, verified not to be changed, released by the caller */
#define INS_MAX 64
typedef struct { void *p[INS_MAX]; size_t n[INS_MAX]; u64 h[INS_MAX]; u8 sealed[INS_MAX]; int k; } Ins;
void *in_bytes(Ins *s, size_t n, size_t elem);  /* to be filled by the harness; sealed by in_seal */
void *in_out(Ins *s, size_t n, size_t elem);    /* written by the library */
void in_seal(Ins *s);                           /* inputs must not change from here */
void in_check(Ins *s);
void in_end(Ins *s);                            /* verifies inputs and releases everything */
static inline float *in_f(Ins *s, size_t n) { return in_bytes(s, n * 4, 4); }
static inline double *in_d(Ins *s, size_t n) { return in_bytes(s, n * 8, 8); }
static inline float *ou_f(Ins *s, size_t n) { return in_out(s, n * 4, 4); }
static inline double *ou_d(Ins *s, size_t n) { return in_out(s, n * 8, 8); }

void gen_image_f(Rng *r, float *im, int w, int h, int c, float range);
void gen_image_u8(Rng *r, u8 *im, int n, int w);
/* clustered data; kind 0 random, 1 integers, 2 clustered, 3 duplicates */
void gen_data_d(Rng *r, double *x, int dim, int n, int kind);
void data_convert(const double *x, void *y, size_t n, int isdouble);
void plan_clear(Plan *p);
extern int mods_verbosity;   /* verbosity given to every object that has one */
extern int mods_lowalign;    /* misalign caller arrays by this many elements (0 = none) */
extern int mods_partial;     /* uses may stop half way */
#endif
