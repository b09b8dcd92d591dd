#define _GNU_SOURCE
#include "threads_sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <vl/generic.h>
typedef uint16_t u16;
#define NKEY 16
#define STK ((size_t)2 << 20)
enum { FREE, RUN, BLOCKED, DONE };
typedef struct Team { int n, id[MAXT], arrived, left; u64 gen; u32 vc[MAXT], vc0[MAXT], vce[MAXT]; struct Ws { u64 no; int n; i64 next, end, incr, chunk; unsigned long long unext; int single; void *copy; } ws[8]; } Team;
typedef struct {
  pthread_t pt; sem_t sem; int st, stalled, joined, started; void (*fn)(void *); void *arg; u32 vc[MAXT]; void *tls[NKEY]; const void *wait; const char *why; int prio; int tid;
  const u8 *pa; u32 pn; u8 pold[64]; u64 ppc; /* write under way */
  Team *team; int pool[MAXT]; u64 wsno; /* workers kept by this thread; work sharing constructs met */
} T;
static T t[MAXT]; static int cur, nlive = 1, active;
u64 sched_steps, sched_switches, sched_order; int sched_races_on = 1, sched_serial;
int omp_sim_max = 4, omp_sim_limit = 1 << 30, omp_max_used, omp_smaller;
/* policy */
static int pol, spur; static u64 gap_r, gap, change_at[8], nchange, stall_at; static int stall_armed, low;

/* ------------------------------------------------------------------ hand-over */
static __thread int me_ = 0;
int sched_self(void) { return me_; }
static void to(int n) {
  int me = me_; if (n == me) return;
  sched_switches++; sched_order = mix64(sched_order, (u64)n * 131 + sched_steps); cur = n; sem_post(&t[n].sem); while (sem_wait(&t[me].sem) && errno == EINTR) ;
}
static int choose(int selfok) { /* the next to run; -1: nobody can */
  int l[MAXT], n = 0; if (selfok && !t[me_].stalled) l[n++] = me_;
  for (int i = 0; i < MAXT; i++) if (t[i].st == RUN && !t[i].stalled && !(i == me_ && selfok) && i != (selfok ? -1 : me_)) l[n++] = i;
  if (!n) { for (int i = 0; i < MAXT; i++) if (t[i].stalled) { t[i].stalled = 0; if (t[i].st == RUN && (i != me_ || selfok)) l[n++] = i; } }
  if (!n) return -1;
  if (n == 1 || sched_serial) return l[0];
  if (pol == 1) { int b = l[0]; for (int i = 1; i < n; i++) if (t[l[i]].prio > t[b].prio) b = l[i]; return b; }
  return l[ch(SS, (u64)n)];
}
static void new_gap(void) { u64 g = ch(SS, gap_r); gap = g ? g : (u64)1 << 60; }
static void commit(void);
static void point(int sync) {
  if (!active) return;
  sched_steps++; if (++sim_steps > sim_budget) sim_violation("no-progress", "more than %llu steps executed: the threads do not end", (unsigned long long)sim_budget);
  if (nlive < 2 || sched_serial) return;
  if (stall_armed && sched_steps >= stall_at) { stall_armed = 0; t[me_].stalled = 1; sim_stat("fault.thread_stalled", 1); int n = choose(1); if (n >= 0) to(n); return; }
  if (pol == 1) { int c = 0; for (u64 i = 0; i < nchange; i++) if (change_at[i] == sched_steps) { t[me_].prio = --low; c = 1; } if (sync || c) { int n = choose(1); if (n >= 0) to(n); } return; }
  if (sync) { if (ch(SS, 4) == 3) { int n = choose(1); if (n >= 0) to(n); } return; }
  if (--gap == 0) { new_gap(); int n = choose(1); if (n >= 0) to(n); }
}
void sched_point(void) { if (!active) return; commit(); point(1); }
static void block(const void *on, const char *why) {
  T *s = &t[me_]; s->st = BLOCKED; s->wait = on; s->why = why; int n = choose(0);
  if (n < 0) { char b[400]; size_t k = 0; for (int i = 0; i < MAXT; i++) if (t[i].st == BLOCKED) k += (size_t)snprintf(b + k, sizeof b - k, "%sthread %d waits for %s", k ? ", " : "", i, t[i].why); sim_violation("deadlock", "no thread can continue: %s", b); }
  to(n);
}
static void wake(int i) { if (t[i].st == BLOCKED) { t[i].st = RUN; t[i].wait = 0; } }
/* ------------------------------------------------------------------ clocks */
static void join_vc(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void tick(void) { t[me_].vc[me_]++; }
typedef struct { const void *p; u32 vc[MAXT]; int owner, depth; } Sync; /* locks, atomics, critical sections */
static Sync *sy; static size_t nsy, csy;
static Sync *sync_of(const void *p) { for (size_t i = 0; i < nsy; i++) if (sy[i].p == p) return sy + i; if (nsy == csy) { csy = csy ? 2 * csy : 64; sy = realloc(sy, csy * sizeof *sy); } Sync *s = sy + nsy++; memset(s, 0, sizeof *s); s->p = p; s->owner = -1; return s; }
/* ------------------------------------------------------------------ accesses */
typedef struct { u32 w[MAXT], r[MAXT], wpc[MAXT]; u16 ws, rs; u8 wm[MAXT], rm[MAXT]; u8 freed, ff; u32 fpc; } Cell;
#define PG 512
typedef struct { u64 no; Cell *c; } Pg;
static Pg *pg; static size_t npg, cpg; static u64 last_no = (u64)-1; static Cell *last_c;
static Cell *shadow_page(void) { static u8 *p; static size_t left; size_t n = PG * sizeof(Cell); if (left < n) { left = n * 256; p = mmap(0, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) sim_harness_error("no memory for the shadow"); } Cell *c = (Cell *)p; p += n; left -= n; return c; }
static u64 hz(u64 x) { x *= 0x9E3779B97F4A7C15ULL; return x ^ (x >> 29); }
static Cell *cell(u64 g, int make) {
  u64 no = g / PG; if (no == last_no) return last_c + g % PG;
  if (!cpg) { cpg = 1 << 12; pg = calloc(cpg, sizeof *pg); }
  size_t i = hz(no) & (cpg - 1); while (pg[i].c && pg[i].no != no) i = (i + 1) & (cpg - 1);
  if (!pg[i].c) {
    if (!make) return 0;
    if (2 * ++npg > cpg) { Pg *o = pg; size_t n = cpg; cpg *= 2; pg = calloc(cpg, sizeof *pg); for (size_t k = 0; k < n; k++) if (o[k].c) { size_t j = hz(o[k].no) & (cpg - 1); while (pg[j].c) j = (j + 1) & (cpg - 1); pg[j] = o[k]; } free(o); i = hz(no) & (cpg - 1); while (pg[i].c) i = (i + 1) & (cpg - 1); }
    pg[i].no = no; pg[i].c = shadow_page();
  }
  last_no = no; last_c = pg[i].c; return last_c + g % PG;
}
static const u8 *set_lo[8], *set_hi[8]; static int nset; static int learning;
static void place(u64 pc, char *b, size_t n) {
  char c[300], e[200]; ssize_t k = readlink("/proc/self/exe", e, sizeof e - 1); snprintf(b, n, "?"); if (k <= 0) return; e[k] = 0; extern char __executable_start;
  if (pc < 1 << 20) return;
  snprintf(c, sizeof c, "addr2line -fe %s 0x%llx 2>/dev/null", e, (unsigned long long)(pc - (u64)&__executable_start - 1)); FILE *f = popen(c, "r"); if (!f) return; char l1[200] = "", l2[200] = ""; if (fgets(l1, sizeof l1, f) && fgets(l2, sizeof l2, f)) { l1[strcspn(l1, "\n")] = 0; l2[strcspn(l2, "\n ")] = 0; snprintf(b, n, "%s (%s)", l1, l2); } pclose(f);
}
extern char __executable_start;
static u64 full(u32 pc) { return ((u64)&__executable_start & ~0xffffffffULL) + pc < (u64)&__executable_start ? ((u64)&__executable_start & ~0xffffffffULL) + pc + (1ULL << 32) : ((u64)&__executable_start & ~0xffffffffULL) + pc; }
static void report(const char *kind, const char *what, const u8 *p, u64 pc, int other, u32 opc) {
  char a[420], b[420], w[200]; place(pc, a, sizeof a); place(full(opc), b, sizeof b); int lv; u64 s; size_t off, sz;
  if (mem_find(p, &lv, &s, &off, &sz) && off < sz) snprintf(w, sizeof w, "byte %zu of a block of %zu", off, sz); else { int i; for (i = 0; i < MAXT; i++) if (t[i].started && p >= (u8 *)0x300000000000ULL + (size_t)i * 2 * STK && p < (u8 *)0x300000000000ULL + (size_t)i * 2 * STK + STK) break; if (i < MAXT) snprintf(w, sizeof w, "the stack of thread %d", i); else snprintf(w, sizeof w, "static memory"); }
  sim_violation(kind, "%s %s: %s in thread %d, and thread %d%s%s", what, w, a, me_, other, opc ? " at " : "", opc ? b : "");
}
static inline int ordered(int u, u32 clk) { return u == me_ || clk <= t[me_].vc[u]; }
static void rd_cell(Cell *c, u8 m, const u8 *p, u64 pc) {
  if (c->freed) report("released-memory", "memory read after its release:", p, pc, c->ff, c->fpc);
  for (u32 s = c->ws; s; s &= s - 1) { int u = __builtin_ctz(s); u8 o = c->wm[u] & m; if (!o || ordered(u, c->w[u])) continue;
    int ok = 0; for (u32 q = c->ws; q && !ok; q &= q - 1) { int v = __builtin_ctz(q); if (v != u && (c->wm[v] & o) == o && ordered(v, c->w[v])) ok = 1; }
    if (!ok && sched_races_on) report("race", "read conflicts with an unordered write,", p, pc, u, c->wpc[u]); }
  u32 k = t[me_].vc[me_]; if (c->r[me_] != k) { c->r[me_] = k; c->rm[me_] = 0; } c->rm[me_] |= m; c->rs |= (u16)(1 << me_);
}
static void wr_cell(Cell *c, u8 m, int changed, const u8 *p, u64 pc) {
  if (c->freed) report("released-memory", "memory written after its release:", p, pc, c->ff, c->fpc);
  if (changed) {
    for (u32 s = c->ws; s; s &= s - 1) { int u = __builtin_ctz(s); if ((c->wm[u] & m) && !ordered(u, c->w[u]) && sched_races_on) report("race", "write conflicts with an unordered write,", p, pc, u, c->wpc[u]); c->wm[u] &= (u8)~m; if (!c->wm[u]) c->ws &= (u16)~(1 << u); }
    for (u32 s = c->rs; s; s &= s - 1) { int u = __builtin_ctz(s); if ((c->rm[u] & m) && !ordered(u, c->r[u]) && sched_races_on) report("race", "write conflicts with an unordered read,", p, pc, u, 0); c->rm[u] &= (u8)~m; if (!c->rm[u]) c->rs &= (u16)~(1 << u); }
  }
  u32 k = t[me_].vc[me_]; if (c->w[me_] != k) { c->w[me_] = k; c->wm[me_] = 0; } c->wm[me_] |= m; c->ws |= (u16)(1 << me_); c->wpc[me_] = (u32)pc;
}
static void touch(const u8 *p, size_t n, int w, int changed, u64 pc) {
  for (int i = 0; i < nset; i++) if (p >= set_lo[i] && p + n <= set_hi[i]) return;
  while (n) { u64 g = (u64)p >> 3; size_t o = (u64)p & 7, k = 8 - o < n ? 8 - o : n; u8 m = (u8)(((1u << k) - 1) << o); Cell *c = cell(g, 1); if (w) wr_cell(c, m, changed, p, pc); else rd_cell(c, m, p, pc); p += k; n -= k; }
}
static void commit(void) {
  T *s = &t[me_]; if (!s->pn) return; const u8 *p = s->pa; u32 n = s->pn; s->pn = 0;
  /* word by word: what kept its value was not really written */
  u32 i = 0; while (i < n) { u32 k = 8 - ((u32)(u64)(p + i) & 7); if (k > n - i) k = n - i; int chg = memcmp(p + i, s->pold + i, k) != 0; if (chg && learning) { if (nset && set_hi[nset - 1] >= p + i && set_lo[nset - 1] <= p + i) { if (set_hi[nset - 1] < p + i + k) set_hi[nset - 1] = p + i + k; } else if (nset < 8) { set_lo[nset] = p + i; set_hi[nset++] = p + i + k; } } touch(p + i, k, 1, chg, s->ppc); i += k; }
}
static inline void acc(const void *a, size_t n, int w, u64 pc) {
  if (!active) return;
  commit(); point(0);
  if (!w) { touch(a, n, 0, 0, pc); return; }
  const u8 *p = a; while (n > 64) { touch(p, 64, 1, 1, pc); p += 64; n -= 64; }
  T *s = &t[me_]; s->pa = p; s->pn = (u32)n; s->ppc = pc; memcpy(s->pold, p, n);
}
#define PC ((u64)__builtin_return_address(0))
#define RW(n) void __tsan_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_write##n(void *a) { acc(a, n, 1, PC); } void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, 0, PC); } void __tsan_volatile_write##n(void *a) { acc(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { acc(a, n, 0, PC); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, n, 1, PC); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void *sim_memcpy(void *d, const void *s, size_t n) { if (active && n) { acc(s, n, 0, PC); commit(); point(0); touch(d, n, 1, memcmp(d, s, n) != 0, PC); } return memcpy(d, s, n); }
void *sim_memcpy2(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (active && n) { acc(s, n, 0, PC); commit(); point(0); touch(d, n, 1, memcmp(d, s, n) != 0, PC); } return memmove(d, s, n); }
void *sim_memset(void *d, int v, size_t n) { if (active && n) { commit(); point(0); const u8 *p = d; int chg = 0; for (size_t i = 0; i < n && !chg; i++) chg = p[i] != (u8)v; touch(d, n, 1, chg, PC); } return memset(d, v, n); }
void sim_qsort(void *b, size_t n, size_t s, int (*f)(const void *, const void *)) { if (active && n * s) { acc(b, n * s, 0, PC); commit(); touch(b, n * s, 1, 1, PC); } qsort(b, n, s, f); }
void sched_freed(const void *p, size_t n) {
  if (!active || !n) return;
  commit(); touch(p, n, 1, 1, 0); for (u64 g = (u64)p >> 3; g <= ((u64)p + n - 1) >> 3; g++) { Cell *c = cell(g, 1); c->freed = 1; c->ff = (u8)me_; c->fpc = 0; }
}
/* atomics: ordering of everything through the address */
static void atom(const void *p) { if (!active) return; commit(); point(1); Sync *s = sync_of(p); join_vc(t[me_].vc, s->vc); join_vc(s->vc, t[me_].vc); tick(); }
#define AT(b, ty) \
ty __tsan_atomic##b##_load(const volatile ty *a, int o) { (void)o; atom((const void *)a); return *a; } \
void __tsan_atomic##b##_store(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); *a = v; } \
ty __tsan_atomic##b##_exchange(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = v; return x; } \
ty __tsan_atomic##b##_fetch_add(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = (ty)(x + v); return x; } \
ty __tsan_atomic##b##_fetch_sub(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = (ty)(x - v); return x; } \
ty __tsan_atomic##b##_fetch_and(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = x & v; return x; } \
ty __tsan_atomic##b##_fetch_or(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = x | v; return x; } \
ty __tsan_atomic##b##_fetch_xor(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = x ^ v; return x; } \
ty __tsan_atomic##b##_fetch_nand(volatile ty *a, ty v, int o) { (void)o; atom((const void *)a); ty x = *a; *a = (ty)~(x & v); return x; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int o, int f) { (void)o; (void)f; atom((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int o, int f) { (void)o; (void)f; atom((const void *)a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
ty __tsan_atomic##b##_compare_exchange_val(volatile ty *a, ty c, ty v, int o, int f) { (void)o; (void)f; atom((const void *)a); ty x = *a; if (x == c) *a = v; return x; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int o) { (void)o; atom(&sy); } void __tsan_atomic_signal_fence(int o) { (void)o; }
/* ------------------------------------------------------------------ threads */
static void run_destructors(void);
static void end_pool(void);
static void *body(void *a) {
  int me = (int)(size_t)a; me_ = me; while (sem_wait(&t[me].sem) && errno == EINTR) ;
  t[me].fn(t[me].arg); end_pool(); run_destructors(); commit(); tick(); t[me].st = DONE; nlive--;
  for (int i = 0; i < MAXT; i++) if (t[i].st == BLOCKED && t[i].wait == &t[me]) wake(i);
  int n = choose(0); if (n < 0) sim_violation("deadlock", "a thread ended and no other can continue"); sched_switches++; cur = n; sem_post(&t[n].sem); return 0;
}
static int spawn(void (*fn)(void *), void *arg) {
  if (!t[0].started) { t[0].started = 1; t[0].st = RUN; sem_init(&t[0].sem, 0, 0); t[0].vc[0] = 1; t[0].prio = 1000; }
  int i; for (i = 1; i < MAXT; i++) if (t[i].st == FREE) break; if (i == MAXT) sim_harness_error("too many threads");
  T *s = &t[i]; u32 k = s->vc[i]; if (s->started) { if (!sched_serial) sim_stat("threads.identifier_reused", 1); } else { sem_init(&s->sem, 0, 0); s->started = 1; void *q = mmap((u8 *)0x300000000000ULL + (size_t)i * 2 * STK, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) sim_harness_error("no stack"); }
  commit(); tick(); memcpy(s->vc, t[me_].vc, sizeof s->vc); s->vc[i] = k + 1; s->fn = fn; s->arg = arg; s->st = RUN; s->stalled = 0; s->pn = 0; s->team = 0; memset(s->tls, 0, sizeof s->tls); memset(s->pool, 0, sizeof s->pool); s->prio = pol == 1 ? 1 + (int)ch(SS, 1000) : 1; s->tid = 0; tick(); nlive++;
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (u8 *)0x300000000000ULL + (size_t)i * 2 * STK, STK); if (pthread_create(&s->pt, &at, body, (void *)(size_t)i)) sim_harness_error("pthread_create"); pthread_attr_destroy(&at);
  if (!sched_serial) sim_stat("threads", 1); return i;
}
static void join(int i) {
  commit(); while (t[i].st != DONE) block(&t[i], "a thread to end");
  pthread_join(t[i].pt, 0); join_vc(t[me_].vc, t[i].vc); t[i].st = FREE;
}
int sched_spawn(void (*fn)(void *), void *arg) { return spawn(fn, arg); }
void sched_join(int i) { join(i); }
void sched_begin(u64 expected) {
  if (!t[0].started) { t[0].started = 1; t[0].st = RUN; sem_init(&t[0].sem, 0, 0); t[0].vc[0] = 1; }
  active = 1; sched_steps = 0; t[0].prio = 1000; low = 0;
  if (sched_serial) { pol = 0; stall_armed = spur = omp_smaller = 0; gap = (u64)1 << 60; return; }
  pol = (int)ch(SS, 4) == 3; static const u64 r[] = {2, 8, 64, 512, 4096, 32768, 300000}; gap_r = r[ch(SS, 7)]; new_gap();
  nchange = pol ? 1 + ch(SS, 6) : 0; if (!expected) expected = 1000; for (u64 i = 0; i < nchange; i++) change_at[i] = 1 + ch(SS, expected);
  stall_armed = (int)ch(SF, 4) == 3; stall_at = stall_armed ? 1 + ch(SF, expected) : 0; spur = (int)ch(SF, 4) == 3; omp_smaller = (int)ch(SF, 4) == 3;
  sim_log("schedule: policy %d, gaps up to %llu, %llu changes of priority, stall at %llu, spurious wake-ups %d, smaller teams %d", pol, (unsigned long long)gap_r, (unsigned long long)nchange, (unsigned long long)stall_at, spur, omp_smaller);
}
void sched_end(void) { end_pool(); commit(); active = 0; if (sched_serial) return; sim_stat(pol ? "schedules.by_priority" : "schedules.random", 1); sim_stat("switches", sched_switches); sim_stat("steps", sched_steps); sim_event(sched_order); }
void sched_learn_settings(void) {
  active = 1; learning = 1; vl_size n = vl_get_max_threads(); vl_bool s = vl_get_simd_enabled(); printf_func_t p = vl_get_printf_func();
  vl_set_num_threads(n + 1); commit(); vl_set_num_threads(n); commit(); vl_set_simd_enabled(!s); commit(); vl_set_simd_enabled(s); commit(); vl_set_printf_func((printf_func_t)sched_begin); commit(); vl_set_printf_func(p); commit();
  learning = 0; active = 0;
}
/* ------------------------------------------------------------------ what the library calls: POSIX threads */
static struct { int used; void (*d)(void *); } key[NKEY];
int sim_key_create(pthread_key_t *k, void (*d)(void *)) { for (unsigned i = 0; i < NKEY; i++) if (!key[i].used) { key[i].used = 1; key[i].d = d; *k = i; for (int q = 0; q < MAXT; q++) t[q].tls[i] = 0; return 0; } return EAGAIN; }
int sim_key_delete(pthread_key_t k) { if (k >= NKEY || !key[k].used) return EINVAL; key[k].used = 0; return 0; }
void *sim_getspecific(pthread_key_t k) { return k < NKEY ? t[me_].tls[k] : 0; }
int sim_setspecific(pthread_key_t k, const void *v) { if (k >= NKEY || !key[k].used) return EINVAL; t[me_].tls[k] = (void *)v; return 0; }
static void run_destructors(void) { for (int r = 0; r < 4; r++) { int any = 0; for (int i = 0; i < NKEY; i++) if (key[i].used && t[me_].tls[i]) { void *v = t[me_].tls[i]; t[me_].tls[i] = 0; any = 1; if (key[i].d) key[i].d(v); } if (!any) break; } }
pthread_t sim_self(void) { return (pthread_t)(0x7000 + me_); }
static int lock(const void *m, const char *why) {
  if (!active) { Sync *s = sync_of(m); s->owner = me_; s->depth++; return 0; }
  commit(); point(1); Sync *s; while ((s = sync_of(m))->owner >= 0) { if (s->owner == me_) sim_violation("deadlock", "a thread locks again what it holds (%s)", why); block(m, why); }
  s->owner = me_; join_vc(t[me_].vc, s->vc); return 0;
}
static int unlock_(const void *m, int hand_over) {
  Sync *s = sync_of(m); if (!active) { s->owner = -1; return 0; }
  commit(); if (s->owner != me_) sim_violation("lock", "a thread unlocks what it does not hold"); s->owner = -1; join_vc(s->vc, t[me_].vc); tick(); for (int i = 0; i < MAXT; i++) if (t[i].st == BLOCKED && t[i].wait == m) wake(i); if (hand_over) point(1); return 0;
}
static int unlock(const void *m) { return unlock_(m, 1); }
int sim_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; memset(sync_of(m)->vc, 0, sizeof sync_of(m)->vc); sync_of(m)->owner = -1; return 0; }
int sim_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int sim_mutex_lock(pthread_mutex_t *m) { return lock(m, "a lock of the library"); }
int sim_mutex_trylock(pthread_mutex_t *m) { if (active) { commit(); point(1); } Sync *s = sync_of(m); if (s->owner >= 0) return EBUSY; s->owner = me_; join_vc(t[me_].vc, s->vc); return 0; }
int sim_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
int sim_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
int sim_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int sim_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  unlock_(m, 0); /* releasing and waiting is one step */
  if (spur && ch(SF, 4) == 3) { sim_stat("fault.spurious_wakeup", 1); } else block(c, "a condition of the library");
  return lock(m, "a lock of the library");
}
static void sig(const void *c, int all) { commit(); int l[MAXT], n = 0; for (int i = 0; i < MAXT; i++) if (t[i].st == BLOCKED && t[i].wait == c) l[n++] = i; if (!n) return; if (all) for (int i = 0; i < n; i++) wake(l[i]); else wake(l[n == 1 ? 0 : ch(SS, (u64)n)]); }
int sim_cond_signal(pthread_cond_t *c) { if (active) sig(c, 0); return 0; }
int sim_cond_broadcast(pthread_cond_t *c) { if (active) sig(c, 1); return 0; }
int sim_once(pthread_once_t *o, void (*f)(void)) { lock(o, "a once control"); if (!*(int *)o) { f(); *(int *)o = 2; } unlock(o); return 0; }
/* ------------------------------------------------------------------ what the library calls: OpenMP */
typedef struct { void (*fn)(void *); void *data; int quit, busy, master; } Job_;
static Job_ wk[MAXT];
static void worker(void *a) {
  (void)a; int me = me_;
  for (;;) { while (!wk[me].busy && !wk[me].quit) block(&wk[me], "work"); if (!wk[me].busy) return; join_vc(t[me].vc, t[me].team->vc0); wk[me].fn(wk[me].data); commit(); Team *tm = t[me].team; join_vc(tm->vce, t[me].vc); tick(); tm->left--; wk[me].busy = 0; t[me].team = 0; if (!tm->left && t[wk[me].master].wait == tm) wake(wk[me].master); }
}
static void end_pool(void) { for (int i = 0; i < MAXT; i++) if (t[me_].pool[i]) { int w = t[me_].pool[i]; wk[w].quit = 1; wake(w); join(w); t[me_].pool[i] = 0; } }
int omp_get_thread_num(void) { return t[me_].team ? t[me_].tid : 0; }
int omp_get_num_threads(void) { return t[me_].team ? t[me_].team->n : 1; }
int omp_get_max_threads(void) { return omp_sim_max; }
int omp_get_thread_limit(void) { return omp_sim_limit; }
int omp_get_num_procs(void) { return omp_sim_max; }
int omp_in_parallel(void) { return t[me_].team && t[me_].team->n > 1; }
int omp_get_level(void) { return t[me_].team != 0; } int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_dynamic(void) { return omp_smaller; } int omp_get_nested(void) { return 0; } void omp_set_nested(int v) { (void)v; }
extern int omp_host_changed; int omp_host_changed;
void omp_set_num_threads(int n) { omp_host_changed = 1; omp_sim_max = n; } void omp_set_dynamic(int v) { (void)v; omp_host_changed = 1; }
double omp_get_wtime(void) { extern long sim_clock(void); return 1e-6 * (double)sim_clock(); }
static void par(void (*fn)(void *), void *data, unsigned n, void (*setup)(Team *, void *), void *sa) {
  T *s = &t[me_]; Team *old = s->team, tm; int otid = s->tid; u64 ows = s->wsno; memset(&tm, 0, sizeof tm); if (!n) n = (unsigned)omp_sim_max; if ((int)n > omp_max_used && !old) omp_max_used = (int)n;
  if (!active || old) n = 1; if (n > (unsigned)omp_sim_limit) n = (unsigned)omp_sim_limit;
  if (n > 1 && omp_smaller) { unsigned k = 1 + (unsigned)ch(SF, n); if (k < n) { sim_stat("fault.smaller_team", 1); n = k; } }
  int lv = 0; for (int i = 0; i < MAXT; i++) lv += t[i].st == FREE; for (unsigned i = 1; i < n; i++) if (!s->pool[i] && lv-- <= 0) { n = i; break; }
  if (active) { commit(); tick(); } tm.n = (int)n; tm.id[0] = me_; s->team = &tm; s->tid = 0; s->wsno = 0; tm.left = (int)n - 1; memcpy(tm.vc0, s->vc, sizeof tm.vc0); if (setup) setup(&tm, sa);
  for (unsigned i = 1; i < n; i++) { if (!s->pool[i]) { s->pool[i] = spawn(worker, 0); memset(&wk[s->pool[i]], 0, sizeof wk[0]); } int w = s->pool[i]; tm.id[i] = w; t[w].team = &tm; t[w].tid = (int)i; t[w].wsno = 0; wk[w].fn = fn; wk[w].data = data; wk[w].master = me_; wk[w].busy = 1; wake(w); }
  if (active && !sched_serial) { char b[32]; snprintf(b, sizeof b, "teams.of_%u", n); sim_stat(b, 1); point(1); }
  fn(data);
  if (n > 1) { commit(); while (tm.left) block(&tm, "the end of a parallel region"); join_vc(s->vc, tm.vce); }
  s->team = old; s->tid = otid; s->wsno = ows;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned fl) { (void)fl; par(fn, data, n, 0, 0); }
void GOMP_barrier(void) {
  Team *m = t[me_].team; if (!m || m->n < 2) return; commit(); join_vc(m->vc, t[me_].vc); tick(); u64 g = m->gen;
  if (++m->arrived == m->n) { m->arrived = 0; m->gen++; for (int i = 0; i < m->n; i++) { join_vc(t[m->id[i]].vc, m->vc); if (t[m->id[i]].st == BLOCKED && t[m->id[i]].wait == &m->gen) wake(m->id[i]); } point(1); return; }
  while (m->gen == g) block(&m->gen, "a barrier");
}
static int crit_, atomic_;
void GOMP_critical_start(void) { lock(&crit_, "a critical section"); } void GOMP_critical_end(void) { unlock(&crit_); }
void GOMP_critical_name_start(void **p) { lock(p, "a critical section"); } void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_, "an atomic update"); } void GOMP_atomic_end(void) { unlock(&atomic_); }
typedef struct { int on; } OL; void omp_init_lock(void *l) { (void)l; } void omp_destroy_lock(void *l) { (void)l; } void omp_set_lock(void *l) { lock(l, "a lock"); } void omp_unset_lock(void *l) { unlock(l); }
/* work sharing */
static struct Ws *ws_new(int *first) { static struct Ws none[MAXT]; Team *m = t[me_].team; u64 no = ++t[me_].wsno; struct Ws *w = m ? &m->ws[no % 8] : &none[me_]; *first = !m || w->no != no; if (*first) { memset(w, 0, sizeof *w); w->no = no; } return w; }
static struct Ws *ws_cur(void) { static struct Ws none; Team *m = t[me_].team; return m ? &m->ws[t[me_].wsno % 8] : &none; }
static void ws_sync(void) { if (active) { commit(); point(1); } }
static struct Ws solo[MAXT];
static struct Ws *wcur(void) { return t[me_].team ? ws_cur() : &solo[me_]; }
static int loop_next(long *a, long *b) { ws_sync(); struct Ws *w = wcur(); if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return 0; i64 e = w->next + w->incr * w->chunk; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end; *a = (long)w->next; *b = (long)e; w->next = e; return 1; }
static void loop_set(struct Ws *w, long s, long e, long i, long c) { w->next = s; w->end = e; w->incr = i; w->chunk = c > 0 ? c : 1; }
static int loop_start(long s, long e, long i, long c, long *a, long *b) { ws_sync(); int f; struct Ws *w; if (t[me_].team) w = ws_new(&f); else { w = &solo[me_]; f = 1; } if (f) loop_set(w, s, e, i, c); return loop_next(a, b); }
#define LOOP(k) _Bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } _Bool GOMP_loop_##k##_next(long *a, long *b) { return loop_next(a, b); } \
  void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { (void)fl; struct { long s, e, i, c; } x = {s, e, i, c}; par(fn, d, n, loop_setup, &x); }
static void loop_setup(Team *m, void *a) { long *x = a; loop_set(&m->ws[0], x[0], x[1], x[2], x[3]); } /* wsno is 0 in every thread of a new team */
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) _Bool GOMP_loop_##k##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } _Bool GOMP_loop_##k##_next(long *a, long *b) { return loop_next(a, b); } \
  void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { (void)fl; struct { long s, e, i, c; } x = {s, e, i, 1}; par(fn, d, n, loop_setup, &x); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
static int ull_next(unsigned long long *a, unsigned long long *b) { long x, y; if (!loop_next(&x, &y)) return 0; *a = (unsigned long long)x; *b = (unsigned long long)y; return 1; }
#define LOOPU(k) _Bool GOMP_loop_ull_##k##_start(_Bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { (void)up; long x, y; if (!loop_start((long)s, (long)e, (long)i, (long)c, &x, &y)) return 0; *a = (unsigned long long)x; *b = (unsigned long long)y; return 1; } _Bool GOMP_loop_ull_##k##_next(unsigned long long *a, unsigned long long *b) { return (_Bool)ull_next(a, b); }
LOOPU(dynamic) LOOPU(guided) LOOPU(static) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
_Bool GOMP_single_start(void) { ws_sync(); if (!t[me_].team) return 1; int f; ws_new(&f); return f; }
unsigned GOMP_sections_next(void) { ws_sync(); struct Ws *w = wcur(); return w->next < w->end ? (unsigned)++w->next : 0; }
unsigned GOMP_sections_start(unsigned n) { ws_sync(); int f = 1; struct Ws *w = t[me_].team ? ws_new(&f) : &solo[me_]; if (f) { w->next = 0; w->end = n; } return GOMP_sections_next(); }
static void sec_setup(Team *m, void *a) { m->ws[0].next = 0; m->ws[0].end = *(unsigned *)a; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned fl) { (void)fl; par(fn, d, n, sec_setup, &c); }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
