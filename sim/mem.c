/* Memory seam: private arena. Blocks are never reused, live at reproducible addresses, are surrounded by
 * poisoned redzones, get drawn contents and placement; requests can be refused or end in a non-local exit. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#include <time.h>
#include <pthread.h>
#include <vl/generic.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
#ifdef SIM_B
#include "threads_sim.h"
#else
#define sched_freed(p, n) ((void)0)
#define sched_point() ((void)0)
#define sched_self() 0
#endif
long sim_clock_last[16]; /* what each thread read last */
#define ARENA ((u8 *)0x200000000000ULL)
#define ARENA_MAX ((size_t)24 << 30)
#define CHUNK ((size_t)4 << 20)
typedef struct { u8 *p; size_t n; u8 live, own; int tag; } Blk;
int mem_tag;
static Blk *blk; static size_t nblk, cblk;
static size_t bump, mapped;
static size_t live[4];
static u64 requests, total;
Env sim_env;
u64 mem_fault_at, mem_fault_cnt, mem_fault_len = 1, mem_fault_fired; int mem_fault_armed;
jmp_buf *sim_abort_jmp; u64 sim_abort_at, sim_abort_cnt; int sim_abort_armed; const char *sim_abort_where;
static Rng fillrng; static size_t lastfreed = (size_t)-1;
int sim_ready;

void env_default(Env *e) { memset(e, 0, sizeof *e); }
void env_draw(Env *e) {
  e->fill = (int)ch(SE, 8); e->fillseed = ch(SE, 1 << 20); e->pad = (int)ch(SE, 4); e->realloc_move = (int)ch(SE, 2); e->stack = (int)ch(SE, 6);
}
void env_use(const Env *e) { sim_env = *e; fillrng = rng_make(e->fillseed + 77); }
static void fill(u8 *p, size_t n) {
  size_t i;
  switch (sim_env.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 2: memset(p, 1, n); break;
    case 3: for (i = 0; i + 8 <= n; i += 8) { u64 v = rng_next(&fillrng); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (u8)rng_next(&fillrng); break;
    case 4: memset(p, 0x3f, n); for (i = 0; i + 4 <= n; i += 4) { float v = (float)((rng_d(&fillrng) - .5) * 2000); memcpy(p + i, &v, 4); } break;
    case 5: /* what the block released last contained */
      if (lastfreed != (size_t)-1 && blk[lastfreed].n) { Blk *b = blk + lastfreed; UNPOISON(b->p, b->n); for (i = 0; i < n; i += b->n) memcpy(p + i, b->p, n - i < b->n ? n - i : b->n); POISON(b->p, b->n); }
      else memset(p, 0x55, n);
      break;
    case 6: memset(p, 0, n); for (i = 0; i + 4 <= n; i += 4) { u32 v = rng_n(&fillrng, 10); memcpy(p + i, &v, 4); } break;
    default: memset(p, 0x7F, n); break;
  }
}
void mem_init(void) {
  if (mapped) return;
  void *q = mmap(ARENA, ARENA_MAX, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (q != ARENA) { fprintf(stderr, "arena unavailable\n"); abort(); }
  mapped = 1; mapped = 0; bump = 4096; fillrng = rng_make(1);
  mapped = 0;
}
static int ensure(size_t end) {
  static int once; if (!once) { once = 1; mem_init(); }
  while (mapped < end) {
    size_t n = CHUNK; while (mapped + n < end) n += CHUNK;
    if (mapped + n > ARENA_MAX) return 0;
    if (mprotect(ARENA + mapped, n, PROT_READ | PROT_WRITE)) return 0;
    POISON(ARENA + mapped, n);
    mapped += n;
  }
  return 1;
}
static Blk *find_exact(const void *p) {
  size_t lo = 0, hi = nblk;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blk[m].p < (const u8 *)p) lo = m + 1; else hi = m; }
  return lo < nblk && blk[lo].p == (const u8 *)p ? blk + lo : 0;
}
int mem_find(const void *p, int *lv, u64 *serial, size_t *off, size_t *size) {
  if ((const u8 *)p < ARENA || (const u8 *)p >= ARENA + bump) return 0;
  size_t lo = 0, hi = nblk;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blk[m].p <= (const u8 *)p) lo = m + 1; else hi = m; }
  if (!lo) return 0;
  Blk *b = blk + lo - 1;
  *lv = b->live; *serial = (u64)(lo - 1); *off = (size_t)((const u8 *)p - b->p); *size = b->n;
  return 1;
}
int mem_is_live(const void *p, int *own, u64 *serial) { Blk *b = find_exact(p); if (!b || !b->live) return 0; if (own) *own = b->own; if (serial) *serial = (u64)(b - blk); return 1; }
static void *mem_take(size_t n, int own, int zero, size_t aligned_off) {
  if (n > MEM_HUGE || total + n > ((u64)20 << 30)) { errno = ENOMEM; sim_ready ? sim_stat("env.huge_request_refused", 1) : (void)0; return 0; }
  size_t at = (bump + 15) & ~(size_t)15;
  if (aligned_off == (size_t)-1) at += 16 * (size_t)sim_env.pad;
  else at = ((bump + 63) & ~(size_t)63) + aligned_off;
  size_t end = at + n;
  size_t rz = 64 + (n > 4096 ? 256 : 0);
  if (!ensure(end + rz + 64)) { errno = ENOMEM; return 0; }
  bump = end + rz;
  total += n;
  if (nblk == cblk) { cblk = cblk ? 2 * cblk : 4096; blk = realloc(blk, cblk * sizeof *blk); }
  Blk *b = blk + nblk++;
  b->p = ARENA + at; b->n = n; b->live = 1; b->own = (u8)own; b->tag = mem_tag; live[own]++;
  UNPOISON(b->p, n);
  if (zero) memset(b->p, 0, n); else fill(b->p, n);
  return b->p;
}
void *mem_alloc(size_t n, int own, int zero) { return mem_take(n, own, zero, (size_t)-1); }
void *mem_alloc_aligned(size_t n, int own, size_t off) { return mem_take(n, own, 0, off & 63); }
static const char *ownname[] = {"the C library", "allocator A", "allocator B", "the caller"};
static Blk *check_release(void *p, int own, const char *what) {
  Blk *b = find_exact(p);
  if (!b) sim_violation("bad-free", "%s of a pointer that is not a block (%s)", what, ownname[own]);
  if (!b->live) sim_violation("double-free", "%s of block %zu (%zu bytes), which was already released", what, (size_t)(b - blk), b->n);
  if (b->own != own) sim_violation("wrong-allocator", "%s: block %zu (%zu bytes) came from %s and is given to %s", what, (size_t)(b - blk), b->n, ownname[b->own], ownname[own]);
  return b;
}
static void drop(Blk *b) { sched_freed(b->p, b->n); b->live = 0; live[b->own]--; lastfreed = (size_t)(b - blk); POISON(b->p, b->n); }
void mem_free_own(void *p, int own) { if (!p) return; drop(check_release(p, own, "free")); }
void *mem_realloc_own(void *p, size_t n, int own) {
  if (!p) return mem_alloc(n, own, 0);
  Blk *b = check_release(p, own, "realloc");
  if (!sim_env.realloc_move && n <= b->n) { /* shrink in place */ if (((size_t)b->p + n + 7) / 8 * 8 < (size_t)b->p + b->n) sched_freed((u8 *)(((size_t)b->p + n + 7) / 8 * 8), (size_t)b->p + b->n - ((size_t)b->p + n + 7) / 8 * 8); POISON(b->p + n, b->n - n); b->n = n; return p; }
  if (!sim_env.realloc_move && b == blk + nblk - 1) { /* the last block grows in place */
    size_t at = (size_t)(b->p - ARENA), end = at + n;
    if (n <= MEM_HUGE && ensure(end + 400)) { size_t old = b->n; UNPOISON(b->p + old, n - old); fill(b->p + old, n - old); b->n = n; bump = end + 64 + (n > 4096 ? 256 : 0); total += n - old; return p; }
  }
  size_t bi = (size_t)(b - blk);
  void *q = mem_alloc(n, own, 0); if (!q) return 0;
  b = blk + bi;
  memcpy(q, b->p, n < b->n ? n : b->n);
  drop(b); return q;
}
size_t mem_live(int own) { return live[own]; }
u64 mem_requests(void) { return requests; }
u64 mem_mark(void) { return nblk; }
size_t mem_live_since(int own, u64 mark) { size_t n = 0; for (size_t i = mark; i < nblk; i++) if (blk[i].live && blk[i].own == own) n++; return n; }
void mem_describe_live(int own, u64 mark, char *b, size_t n) {
  size_t k = 0, m = 0; b[0] = 0;
  for (size_t i = mark; i < nblk && m < 6; i++) if (blk[i].live && blk[i].own == own) { int w = snprintf(b + k, n - k, "%s#%zu(%zu bytes)", m ? ", " : "", i - (size_t)mark, blk[i].n); if (w < 0 || (size_t)w >= n - k) break; k += (size_t)w; m++; }
}
size_t mem_live_tag(int own, int tag) { size_t n = 0; for (size_t i = 0; i < nblk; i++) if (blk[i].live && blk[i].own == own && blk[i].tag == tag) n++; return n; }
void mem_describe_tag(int own, int tag, char *b, size_t n) {
  size_t k = 0, m = 0; b[0] = 0;
  for (size_t i = 0; i < nblk && m < 6; i++) if (blk[i].live && blk[i].own == own && blk[i].tag == tag) { int w = snprintf(b + k, n - k, "%s%zu bytes", m ? ", " : "", blk[i].n); if (w < 0 || (size_t)w >= n - k) break; k += (size_t)w; m++; }
}
void mem_release_all_since(int own, u64 mark) { for (size_t i = mark; i < nblk; i++) if (blk[i].live && blk[i].own == own) drop(blk + i); }

__attribute__((noinline, no_sanitize("address"))) static void paint(size_t n) {
  volatile u8 *b = __builtin_alloca(n); u32 x = 0x12345 + (u32)sim_env.fillseed; int m = sim_env.stack;
  for (size_t i = 0; i < n; i += 4) { u32 v; switch (m) { case 1: v = 0; break; case 2: v = 0xFFFFFFFFu; break; case 3: v = 0x01010101u; break; case 4: x = x * 1664525u + 1013904223u; v = x; break; default: { float f = (float)(i % 997) - 300.f; memcpy(&v, &f, 4); } } *(volatile u32 *)(b + i) = v; }
}
void paint_stack(void) { if (sim_env.stack) paint(128 << 10); }

int sim_toggle; u64 sim_toggle_seed;
void sim_hook(const char *what) {
  sched_point();
  if (sim_toggle) { sim_toggle_seed = sim_toggle_seed * 6364136223846793005ULL + 1442695040888963407ULL; if ((sim_toggle_seed >> 40) & 1) { vl_set_simd_enabled((vl_bool)((sim_toggle_seed >> 41) & 1)); sim_stat("fault.simd_switch", 1); } }
  if (!sim_abort_armed) return;
  if (++sim_abort_cnt == sim_abort_at) { sim_abort_armed = 0; sim_abort_where = what; longjmp(*sim_abort_jmp, 1); }
}
static int refused(void) {
  sched_point(); requests++;
  if (!mem_fault_armed) return 0;
  mem_fault_cnt++;
  if (mem_fault_cnt >= mem_fault_at && mem_fault_cnt < mem_fault_at + mem_fault_len) { mem_fault_fired++; errno = ENOMEM; return 1; }
  return 0;
}
#define DEF(X, OWN) \
static void *m##X(size_t n) { sim_hook("malloc"); return refused() ? 0 : mem_alloc(n, OWN, 0); } \
static void *c##X(size_t a, size_t b) { sim_hook("calloc"); if (b && a > MEM_HUGE / b) { errno = ENOMEM; requests++; return 0; } return refused() ? 0 : mem_alloc(a * b, OWN, 1); } \
static void *r##X(void *p, size_t n) { sim_hook("realloc"); return refused() ? 0 : mem_realloc_own(p, n, OWN); } \
static void f##X(void *p) { sim_hook("free"); mem_free_own(p, OWN); }
DEF(A, OWN_A) DEF(B, OWN_B)
void mem_use_allocator(int own) {
  if (own == OWN_A) vl_set_alloc_func(mA, rA, cA, fA);
  else if (own == OWN_B) vl_set_alloc_func(mB, rB, cB, fB);
}
/* what the library's own references to the C allocator are renamed to */
void *simraw_malloc(size_t n) { return refused() ? 0 : mem_alloc(n, OWN_RAW, 0); }
void *simraw_calloc(size_t a, size_t b) { if (b && a > MEM_HUGE / b) { requests++; errno = ENOMEM; return 0; } return refused() ? 0 : mem_alloc(a * b, OWN_RAW, 1); }
void *simraw_realloc(void *p, size_t n) { return refused() ? 0 : mem_realloc_own(p, n, OWN_RAW); }
void simraw_free(void *p) { mem_free_own(p, OWN_RAW); }
void *simraw_memalign(size_t al, size_t n) { (void)al; return mem_alloc(n, OWN_RAW, 0); }
void *simraw_aligned_alloc(size_t al, size_t n) { (void)al; return mem_alloc(n, OWN_RAW, 0); }
int simraw_posix_memalign(void **p, size_t al, size_t n) { (void)al; *p = mem_alloc(n, OWN_RAW, 0); return *p ? 0 : ENOMEM; }
char *simraw_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = simraw_malloc(n); if (p) memcpy(p, s, n); return p; }

/* ---------------- messages ---------------- */
u64 sim_msgs; int sim_print_ret; int sim_direct_ok; void (*sim_print_tap)(const char *);
int sim_printf(const char *fmt, ...) {
  sim_hook("printf"); sim_msgs++;
  char b[1024]; va_list ap; va_start(ap, fmt); int k = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (sim_print_tap) sim_print_tap(b);
  return sim_print_ret == 0 ? k : sim_print_ret == 1 ? -1 : 0;
}
static void direct(const char *what) { if (!sim_direct_ok) sim_violation("direct-output", "the library wrote to the standard output or error directly (%s)", what); }
int sim_direct_printf(const char *fmt, ...) { direct(fmt); sim_msgs++; return 1; }
int sim_direct_vprintf(const char *fmt, va_list ap) { (void)ap; direct(fmt); return 1; }
int sim_direct_puts(const char *s) { direct(s); return 1; }
int sim_direct_putchar(int c) { direct("putchar"); return c; }
int sim_direct_fprintf(FILE *f, const char *fmt, ...) { if (f == stdout || f == stderr) { direct(fmt); return 1; } va_list ap; va_start(ap, fmt); int k = vfprintf(f, fmt, ap); va_end(ap); return k; }
int sim_direct_vfprintf(FILE *f, const char *fmt, va_list ap) { if (f == stdout || f == stderr) { direct(fmt); return 1; } return vfprintf(f, fmt, ap); }
int sim_direct_fputs(const char *s, FILE *f) { if (f == stdout || f == stderr) { direct(s); return 1; } return fputs(s, f); }
int sim_direct_fputc(int c, FILE *f) { if (f == stdout || f == stderr) { direct("fputc"); return c; } return fputc(c, f); }
size_t sim_direct_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) { direct("fwrite"); return n; } return fwrite(p, s, n, f); }

/* ---------------- clock ---------------- */
int sim_clock_mode; static Rng clkrng; static i64 clk;
void sim_clock_reset(u64 seed) { clkrng = rng_make(seed); clk = 0; }
long sim_clock(void) {
  i64 d; sched_point();
  switch (sim_clock_mode) { case 0: d = 10; break; case 1: d = (i64)rng_n(&clkrng, 1000000); break; case 2: d = (i64)rng_n(&clkrng, 2000000) - 1000000; break; case 3: d = (i64)rng_n(&clkrng, 2) * 3600000000LL; break; case 4: return sim_clock_last[sched_self()] = -1; default: d = 0; }
  clk += d; if (d > 0) sim_simtime_us += (u64)d; sim_stat("env.clock_reads", 1);
  return sim_clock_last[sched_self()] = clk;
}
long sim_time(long *t) { long v = sim_clock() / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(void *tv, void *tz) { (void)tz; long v = sim_clock(); ((long *)tv)[0] = v / 1000000; ((long *)tv)[1] = v % 1000000; return 0; }
int sim_clock_gettime(int id, void *tv) { (void)id; long v = sim_clock(); ((long *)tv)[0] = v / 1000000; ((long *)tv)[1] = 1000 * (v % 1000000); return 0; }
