/* Deterministic simulator for vlfeat: core interface (see ../DESIGN.md). */
#ifndef SIM_H
#define SIM_H
#ifdef SIM_B
#define SIM_FLAVOUR "B"
#elif defined SIM_M
#define SIM_FLAVOUR "M"
#else
#define SIM_FLAVOUR "A"
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdio.h>
#include <setjmp.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

/* ---------------- choice streams ---------------- */
enum { SW = 0 /* workload */, SF /* faults */, SS /* schedule */, SE /* environment */, NSTREAMS };
#define MAXCH 65536
u64 ch(int stream, u64 n);                 /* 0..n-1, recorded; 0 is the simplest */
static inline int chr(int s, int lo, int hi) { return lo + (int)ch(s, (u64)(hi - lo + 1)); }
static inline int chance(int s, int num, int den) { return (int)ch(s, den) >= den - num; } /* 0 = no */
double chd(int s, double lo, double hi);   /* one of 1024 values */
/* expansion of one recorded choice into bulk data: private generator, not recorded */
typedef struct { u64 s; } Rng;
u64 rng_next(Rng *r);
static inline Rng rng_make(u64 seed) { Rng r; r.s = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; rng_next(&r); return r; }
static inline u32 rng_n(Rng *r, u32 n) { return (u32)((rng_next(r) >> 33) % n); }
static inline double rng_d(Rng *r) { return (double)(rng_next(r) >> 11) / 9007199254740992.0; }

/* ---------------- outcome of a run ---------------- */
void sim_violation(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
void sim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* human trace; kept only when tracing */
void sim_event(u64 h);                     /* folds into the hash of the run's history */
void sim_stat(const char *name, u64 n);    /* counter in the evidence */
void sim_nontrivial(void);                 /* something beyond the undisturbed run happened */
extern int sim_tracing, sim_tier_thorough;
extern u64 sim_steps, sim_budget;          /* basic blocks executed in the library; limit */
extern u64 sim_simtime_us;                 /* simulated time covered */
static inline u64 mix64(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
u64 hash_bytes(const void *p, size_t n, u64 h);

/* ---------------- recorded outputs ---------------- */
enum { T_U8, T_I32, T_U32, T_I64, T_U64, T_F, T_D };
typedef struct { const char *label; int type; size_t n, off; } OutItem;
typedef struct { OutItem *it; size_t n, cap; u8 *buf; size_t len, bcap; } Out;
void out_init(Out *o); void out_clear(Out *o); void out_free(Out *o);
void out_put(Out *o, const char *label, int type, const void *p, size_t n);
static inline void out_f(Out *o, const char *l, const float *p, size_t n) { out_put(o, l, T_F, p, n); }
static inline void out_d(Out *o, const char *l, const double *p, size_t n) { out_put(o, l, T_D, p, n); }
static inline void out_i(Out *o, const char *l, i64 v) { out_put(o, l, T_I64, &v, 1); }
static inline void out_u8(Out *o, const char *l, const u8 *p, size_t n) { out_put(o, l, T_U8, p, n); }
static inline void out_u32(Out *o, const char *l, const u32 *p, size_t n) { out_put(o, l, T_U32, p, n); }
static inline void out_dv(Out *o, const char *l, double v) { out_put(o, l, T_D, &v, 1); }
static inline void out_s(Out *o, const char *l, const char *s) { size_t n = 0; while (s && s[n]) n++; out_put(o, l, T_U8, s, n); }
u64 out_hash(const Out *o);
/* returns 0 if equal; otherwise describes the first difference. rtol/atol = 0: bit for bit (NaNs equal) */
int out_diff(const Out *a, const Out *b, double rtol, double atol, char *msg, size_t msz);

/* ---------------- memory seam ---------------- */
typedef struct {
  int fill;        /* contents of fresh memory, see mem.c */
  u64 fillseed;
  int pad;         /* 0..: extra 16 byte units before each block */
  int realloc_move;/* 1: a resize always moves; 0: in place whenever possible */
  int stack;       /* paint the stack with this pattern (0 = none) */
} Env;
extern Env sim_env;
void env_draw(Env *e);
void env_default(Env *e);
void env_use(const Env *e);                /* from now on */
enum { OWN_RAW = 0, OWN_A = 1, OWN_B = 2, OWN_USER = 3 };
extern int mem_tag;                        /* recorded in every block taken from now on */
size_t mem_live_tag(int own, int tag);
void mem_describe_tag(int own, int tag, char *b, size_t n);
void mem_init(void);
void mem_use_allocator(int own);           /* installs the allocator functions A or B in the library */
void *mem_alloc(size_t n, int own, int zero);
void *mem_alloc_aligned(size_t n, int own, size_t off); /* off bytes past a 64 byte boundary */
void  mem_free_own(void *p, int own);
void *mem_realloc_own(void *p, size_t n, int own);
size_t mem_live(int own);                  /* live blocks of that owner */
u64 mem_requests(void);                    /* allocation requests through the configured functions so far */
u64 mem_mark(void);                        /* serial of the next block */
size_t mem_live_since(int own, u64 mark);
void mem_describe_live(int own, u64 mark, char *b, size_t n);
void mem_release_all_since(int own, u64 mark); /* what a caller does after abandoning an operation */
int  mem_is_live(const void *p, int *own, u64 *serial);
int  mem_find(const void *p, int *live, u64 *serial, size_t *off, size_t *size);  /* block containing p */
void paint_stack(void);
extern u64 mem_fault_at;                   /* refuse the request with this ordinal (1-based, counted by mem_fault_cnt) */
extern u64 mem_fault_cnt, mem_fault_len;   /* refuse requests [at, at+len) */
extern u64 mem_fault_fired;
extern int mem_fault_armed;
#define MEM_HUGE ((size_t)1 << 28)

/* hook points at which a non-local exit can be taken */
extern jmp_buf *sim_abort_jmp; extern u64 sim_abort_at, sim_abort_cnt; extern int sim_abort_armed;
extern const char *sim_abort_where;
void sim_hook(const char *what);

/* messages */
typedef int (*printf_fn)(const char *fmt, ...);
extern u64 sim_msgs; extern int sim_print_ret; extern int sim_direct_ok;
int sim_printf(const char *fmt, ...);
extern void (*sim_print_tap)(const char *text); /* optional observer of messages */

/* clock */
extern int sim_clock_mode;
void sim_clock_reset(u64 seed);

/* ---------------- property drivers ---------------- */
typedef struct { const char *id; void (*run)(void); } Prop;
extern const Prop sim_props[];
typedef struct { const char *prop, *id; void (*run)(void); } Demo;
extern const Demo sim_demos[];
void sim_child_setup(void);
#endif
