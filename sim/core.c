/* Core: choice streams, outputs, batch runner, determinism check, minimiser, replay. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>

#define MAXSTAT 400
#define LOGSZ (1 << 18)
#define COVSZ (1 << 16)
typedef struct { char name[48]; u64 n; } Stat;
typedef struct {
  /* in */
  int replay; u64 seed;
  u32 nin[NSTREAMS];
  u64 in[NSTREAMS][MAXCH];
  /* out */
  u32 nout[NSTREAMS];
  u64 out[NSTREAMS][MAXCH];
  u64 bound[NSTREAMS][MAXCH];
  u64 hash; int nontrivial; u64 steps, simtime;
  int status; /* 0 running, 1 ok, 2 violation, 3 harness error */
  char kind[64]; char msg[2048];
  int nstat; Stat stat[MAXSTAT];
  u32 loglen; char log[LOGSZ];
  u8 cov[COVSZ];
} Shm;
static Shm *shm;
static u64 prng[NSTREAMS];
static u32 pos[NSTREAMS];
int sim_tracing, sim_tier_thorough;
u64 sim_steps, sim_budget = 1500000000ULL, sim_simtime_us;
static const Prop *cur_prop; static const Demo *cur_demo;

u64 rng_next(Rng *r) { u64 z = (r->s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

u64 ch(int s, u64 n) {
  u64 v; u32 p = pos[s]++;
  if (n == 0) n = 1;
  if (shm->replay) v = p < shm->nin[s] ? shm->in[s][p] % n : 0;
  else { Rng r = { prng[s] }; v = rng_next(&r); prng[s] = r.s; v = (v >> 11) % n; }
  if (p < MAXCH) { shm->out[s][p] = v; shm->bound[s][p] = n; shm->nout[s] = p + 1; }
  else if (!shm->replay) { /* past the recorded part everything is the simplest choice, so replay agrees */ v = 0; }
  return v;
}
double chd(int s, double lo, double hi) { return lo + (hi - lo) * (double)ch(s, 1024) / 1023.0; }

void sim_event(u64 h) { shm->hash = mix64(shm->hash, h); }
void sim_nontrivial(void) { shm->nontrivial = 1; }
u64 hash_bytes(const void *p, size_t n, u64 h) { const u8 *c = p; while (n >= 8) { u64 v; memcpy(&v, c, 8); h = mix64(h, v); c += 8; n -= 8; } while (n--) h = mix64(h, *c++); return h; }
void sim_stat(const char *name, u64 n) {
  int i; for (i = 0; i < shm->nstat; i++) if (!strcmp(shm->stat[i].name, name)) { shm->stat[i].n += n; return; }
  if (shm->nstat < MAXSTAT) { snprintf(shm->stat[i].name, sizeof shm->stat[i].name, "%s", name); shm->stat[i].n = n; shm->nstat++; }
}
void sim_log(const char *fmt, ...) {
  if (!sim_tracing) return;
  va_list ap; va_start(ap, fmt);
  if (shm->loglen < LOGSZ - 400) { int k = vsnprintf(shm->log + shm->loglen, 380, fmt, ap); if (k > 379) k = 379; shm->loglen += k; shm->log[shm->loglen++] = '\n'; shm->log[shm->loglen] = 0; }
  va_end(ap);
}
static void finish(int st) { shm->status = st; shm->steps = sim_steps; shm->simtime = sim_simtime_us; _exit(st == 1 ? 0 : st == 2 ? 42 : 43); }
void sim_violation(const char *kind, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(shm->kind, sizeof shm->kind, "%s", kind);
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
  finish(2);
}
void sim_harness_error(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(shm->kind, sizeof shm->kind, "harness");
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
  finish(3);
}
/* basic-block callback of the instrumented library */
void __sanitizer_cov_trace_pc(void);
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
  u64 pc = (u64)__builtin_return_address(0);
  sim_steps++;
  if (shm) shm->cov[((pc >> 1) ^ (pc >> 17)) & (COVSZ - 1)] = 1;
  if (sim_steps > sim_budget) sim_violation("no-progress", "more than %llu basic blocks executed: the operation does not end", (unsigned long long)sim_budget);
}

/* ---------------- outputs ---------------- */
static const size_t tsz[] = {1, 4, 4, 8, 8, 4, 8};
void out_init(Out *o) { memset(o, 0, sizeof *o); }
void out_clear(Out *o) { o->n = 0; o->len = 0; }
void out_free(Out *o) { free(o->it); free(o->buf); memset(o, 0, sizeof *o); }
void out_put(Out *o, const char *label, int type, const void *p, size_t n) {
  if (!o) return;
  size_t b = n * tsz[type];
  if (o->n == o->cap) { o->cap = o->cap ? 2 * o->cap : 64; o->it = realloc(o->it, o->cap * sizeof *o->it); }
  if (o->len + b > o->bcap) { o->bcap = 2 * o->bcap + b + 4096; o->buf = realloc(o->buf, o->bcap); }
  o->it[o->n++] = (OutItem){label, type, n, o->len};
  if (b) memcpy(o->buf + o->len, p, b);
  o->len += b;
}
u64 out_hash(const Out *o) {
  u64 h = 7; for (size_t i = 0; i < o->n; i++) { h = mix64(h, o->it[i].n * 8 + o->it[i].type); } return hash_bytes(o->buf, o->len, h);
}
static double getv(const Out *o, const OutItem *t, size_t i) {
  const u8 *p = o->buf + t->off + i * tsz[t->type];
  switch (t->type) { case T_U8: return *p; case T_I32: { int32_t v; memcpy(&v, p, 4); return v; } case T_U32: { u32 v; memcpy(&v, p, 4); return v; }
    case T_I64: { i64 v; memcpy(&v, p, 8); return (double)v; } case T_U64: { u64 v; memcpy(&v, p, 8); return (double)v; }
    case T_F: { float v; memcpy(&v, p, 4); return v; } default: { double v; memcpy(&v, p, 8); return v; } }
}
int out_diff(const Out *a, const Out *b, double rtol, double atol, char *msg, size_t msz) {
  size_t n = a->n < b->n ? a->n : b->n;
  for (size_t i = 0; i < n; i++) {
    OutItem *x = a->it + i, *y = b->it + i;
    if (strcmp(x->label, y->label) || x->type != y->type) { snprintf(msg, msz, "output %zu is %s, expected %s", i, x->label, y->label); return 1; }
    if (x->n != y->n) { snprintf(msg, msz, "%s has %zu values, expected %zu", x->label, x->n, y->n); return 1; }
    int isf = x->type >= T_F;
    if (!memcmp(a->buf + x->off, b->buf + y->off, x->n * tsz[x->type])) continue;
    double mx = 0; if (rtol > 0 && isf) for (size_t k = 0; k < y->n; k++) { double v = fabs(getv(b, y, k)); if (v > mx && isfinite(v)) mx = v; }
    for (size_t k = 0; k < x->n; k++) {
      if (!memcmp(a->buf + x->off + k * tsz[x->type], b->buf + y->off + k * tsz[x->type], tsz[x->type])) continue;
      double u = getv(a, x, k), v = getv(b, y, k);
      if (isf && isnan(u) && isnan(v)) continue;
      if (isf && rtol > 0 && isfinite(u) && isfinite(v) && fabs(u - v) <= atol + rtol * fmax(mx, fabs(v))) continue;
      snprintf(msg, msz, "%s[%zu] (output %zu) is %.17g, expected %.17g", x->label, k, i, u, v);
      return 1;
    }
  }
  if (a->n != b->n) { snprintf(msg, msz, "%zu outputs, expected %zu", a->n, b->n); return 1; }
  return 0;
}

/* ---------------- running one seed ---------------- */
typedef struct { int cls; char kind[80]; char msg[2100]; u64 hash; } Res; /* cls 0 ok 1 violation 2 harness error */
static char errfile[256];
static char *slurp(const char *f, size_t max) {
  FILE *h = fopen(f, "r"); char *b = malloc(max + 1); size_t n = 0; if (h) { n = fread(b, 1, max, h); fclose(h); } b[n] = 0; return b;
}
/* The peer is the same program with the library compiled in another way (automatic variables hold a pattern until they are assigned).
   It executes the run that has just ended from the choices made, and must arrive at the same history. */
static int peer_in = -1, peer_out = -1; static const char *peer_exe;
static void io_all(int fd, void *p, size_t n, int wr) { char *c = p; while (n) { ssize_t k = wr ? write(fd, c, n) : read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; sim_harness_error("the peer ended"); } c += k; n -= (size_t)k; } }
static void peer_start(void) {
  if (!peer_exe) return; int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(3); }
  fflush(0); pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); char e[300]; snprintf(e, sizeof e, "%s.peer", errfile); execl(peer_exe, peer_exe, "--serve", e, (char *)0); _exit(127); }
  close(a[0]); close(b[1]); peer_in = a[1]; peer_out = b[0];
}
typedef struct { u32 n[NSTREAMS]; u64 seed; char prop[16]; int thorough; } Ask;
typedef struct { int cls; u64 hash; char kind[80], msg[600]; } Answer;
static void peer_check(void) {
  if (peer_in < 0) return;
  Ask q; memset(&q, 0, sizeof q); Answer r; q.seed = shm->seed; snprintf(q.prop, sizeof q.prop, "%s", cur_prop->id); q.thorough = sim_tier_thorough;
  for (int s = 0; s < NSTREAMS; s++) q.n[s] = shm->nout[s];
  io_all(peer_in, &q, sizeof q, 1); for (int s = 0; s < NSTREAMS; s++) io_all(peer_in, shm->out[s], sizeof(u64) * q.n[s], 1);
  io_all(peer_out, &r, sizeof r, 0); sim_stat("compared_with_patterned_variables", 1);
  if (r.cls == 2) sim_harness_error("peer: %s: %s", r.kind, r.msg);
  if (r.cls == 1) sim_violation("depends-on-variables", "with automatic variables holding a pattern until they are assigned: %s: %s", r.kind, r.msg);
  if (r.hash != shm->hash) sim_violation("depends-on-variables", "the results are others when automatic variables hold a pattern until they are assigned");
}
static void child(void) {
  int fd = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
  fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  for (int s = 0; s < NSTREAMS; s++) { Rng r = rng_make(shm->seed * 8 + s + 1); prng[s] = r.s; pos[s] = 0; }
  sim_child_setup();
  if (cur_demo) cur_demo->run(); else { cur_prop->run(); peer_check(); }
  finish(1);
}
static Res run_child(u64 seed, int replay, int trace) {
  Res r; memset(&r, 0, sizeof r);
  shm->replay = replay; shm->seed = seed; shm->hash = 0; shm->nontrivial = 0; shm->steps = shm->simtime = 0; shm->status = 0; shm->kind[0] = shm->msg[0] = 0; shm->nstat = 0; shm->loglen = 0; shm->log[0] = 0;
  for (int s = 0; s < NSTREAMS; s++) shm->nout[s] = 0;
  sim_tracing = trace;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "fork: %s\n", strerror(errno)); exit(3); }
  if (p == 0) child();
  int st; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int killed = 0;
  for (;;) {
    pid_t q = waitpid(p, &st, killed ? 0 : WNOHANG);
    if (q == p) break;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double dt = (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec);
    if (dt > 180 && !killed) { kill(p, SIGKILL); killed = 1; continue; }
    struct timespec ts = {0, dt < 0.02 ? 200000 : 2000000}; nanosleep(&ts, 0);
  }
  r.hash = shm->hash;
  if (killed) { r.cls = 2; snprintf(r.kind, sizeof r.kind, "wallclock"); snprintf(r.msg, sizeof r.msg, "run exceeded 180 s of real time"); return r; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->status == 1) return r;
  if (shm->status == 2) { r.cls = 1; snprintf(r.kind, sizeof r.kind, "%s", shm->kind); snprintf(r.msg, sizeof r.msg, "%s", shm->msg); return r; }
  if (shm->status == 3) { r.cls = 2; snprintf(r.kind, sizeof r.kind, "harness"); snprintf(r.msg, sizeof r.msg, "%s", shm->msg); return r; }
  char *e = slurp(errfile, 200000);
  char *a = strstr(e, "ERROR: AddressSanitizer: ");
  r.cls = 1;
  if (a) {
    a += 25; int k = (int)strcspn(a, " \n");
    snprintf(r.kind, sizeof r.kind, "asan:%.*s", k > 40 ? 40 : k, a);
    /* the first library frame */
    char *f = a, *in = 0; char fn[200] = "?";
    for (int i = 0; i < 40 && (f = strstr(f, "\n    #")); i++) { f++; char *eol = strchr(f, '\n'); char *x = strstr(f, " in "); if (x && eol && x < eol) { char line[500]; int L = (int)(eol - x); if (L > 480) L = 480; snprintf(line, sizeof line, "%.*s", L, x + 4); if (strstr(line, "/vl/") || strstr(line, "/src/") || strstr(line, "/toolbox/")) { snprintf(fn, sizeof fn, "%.190s", line); in = x; break; } } if (eol && eol[1] == '\n') break; }
    (void)in;
    char *eol = strchr(a, '\n'); if (eol) *eol = 0;
    snprintf(r.msg, sizeof r.msg, "AddressSanitizer: %.200s; in %s", a, fn);
  } else if (WIFSIGNALED(st)) {
    snprintf(r.kind, sizeof r.kind, "signal:%d", WTERMSIG(st));
    snprintf(r.msg, sizeof r.msg, "terminated by signal %d", WTERMSIG(st));
  } else {
    char *q = e; while (*q && (q = strchr(q, '\n'))) *q = ' ';
    snprintf(r.kind, sizeof r.kind, "exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    snprintf(r.msg, sizeof r.msg, "unexpected exit (%d): %.500s", st, e);
  }
  free(e);
  return r;
}
/* ---------------- minimiser ---------------- */
typedef struct { u32 n[NSTREAMS]; u64 v[NSTREAMS][MAXCH]; } Choices;
static void save(Choices *c) { for (int s = 0; s < NSTREAMS; s++) { c->n[s] = shm->nout[s]; memcpy(c->v[s], shm->out[s], sizeof(u64) * shm->nout[s]); while (c->n[s] && c->v[s][c->n[s] - 1] == 0) c->n[s]--; } }
static void load(const Choices *c) { for (int s = 0; s < NSTREAMS; s++) { shm->nin[s] = c->n[s]; memcpy(shm->in[s], c->v[s], sizeof(u64) * c->n[s]); } }
static int sim_try(const Choices *c, u64 seed, const char *kind, int *budget) {
  if (*budget <= 0) return 0;
  --*budget; load(c);
  Res r = run_child(seed, 1, 0);
  return r.cls == 1 && !strcmp(r.kind, kind);
}
static void minimise(Choices *best, u64 seed, const char *kind, int budget, double maxsec) {
  Choices *t = malloc(sizeof *t); struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  int progress = 1;
  while (progress && budget > 0) {
    progress = 0;
    static const int order[] = {SS, SF, SE, SW};
    for (int oi = 0; oi < NSTREAMS; oi++) {
      int s = order[oi];
      for (u32 len = best->n[s]; len >= 1; len /= 2) {
        for (u32 at = 0; at < best->n[s]; ) {
          clock_gettime(CLOCK_MONOTONIC, &t1); if ((double)(t1.tv_sec - t0.tv_sec) > maxsec) { free(t); return; }
          u32 L = len; if (at + L > best->n[s]) L = best->n[s] - at;
          /* delete the chunk */
          *t = *best; memmove(t->v[s] + at, t->v[s] + at + L, sizeof(u64) * (t->n[s] - at - L)); t->n[s] -= L;
          if (sim_try(t, seed, kind, &budget)) { *best = *t; progress = 1; continue; }
          /* zero the chunk */
          int nz = 0; for (u32 i = at; i < at + L; i++) nz |= best->v[s][i] != 0;
          if (nz) { *t = *best; memset(t->v[s] + at, 0, sizeof(u64) * L); while (t->n[s] && !t->v[s][t->n[s] - 1]) t->n[s]--; if (sim_try(t, seed, kind, &budget)) { *best = *t; progress = 1; if (at >= best->n[s]) break; } }
          if (L == 1 && at < best->n[s] && best->v[s][at] > 1) { /* smaller values */
            u64 v = best->v[s][at];
            u64 cand[3] = {1, v / 2, v - 1};
            for (int k = 0; k < 3; k++) if (cand[k] < best->v[s][at]) { *t = *best; t->v[s][at] = cand[k]; if (sim_try(t, seed, kind, &budget)) { *best = *t; progress = 1; break; } }
          }
          at += L;
        }
        if (budget <= 0) break;
      }
    }
  }
  free(t);
}
static const char *sname[] = {"W", "F", "S", "E"};
static void write_replay(const char *path, const char *prop, u64 seed, const Choices *c, const Res *r, const char *orig) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
  fprintf(f, "vlsim-replay 1\nflavour %s\nproperty %s\nkind %s\nseed %llu\nmessage %s\n", SIM_FLAVOUR, prop, r->kind, (unsigned long long)seed, r->msg);
  if (orig) fprintf(f, "original %s\n", orig);
  for (int s = 0; s < NSTREAMS; s++) { fprintf(f, "stream %s %u", sname[s], c->n[s]); for (u32 i = 0; i < c->n[s]; i++) fprintf(f, " %llu", (unsigned long long)c->v[s][i]); fprintf(f, "\n"); }
  fprintf(f, "trace\n%s", shm->log);
  fclose(f);
}
static int read_replay(const char *path, char *prop, char *kind, u64 *seed, Choices *c) {
  FILE *f = fopen(path, "r"); char w[64]; if (!f) return 0;
  memset(c, 0, sizeof *c); prop[0] = kind[0] = 0; *seed = 0;
  char *line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    unsigned long long v;
    if (!strncmp(line, "trace", 5)) break;
    if (sscanf(line, "property %15s", w) == 1) strcpy(prop, w);
    else if (sscanf(line, "kind %63s", w) == 1) strcpy(kind, w);
    else if (sscanf(line, "seed %llu", &v) == 1) *seed = v;
    else if (!strncmp(line, "stream ", 7)) {
      int s = -1; for (int k = 0; k < NSTREAMS; k++) if (line[7] == sname[k][0]) s = k;
      if (s < 0) continue;
      char *p = line + 8; u32 n = (u32)strtoul(p, &p, 10); if (n > MAXCH) n = MAXCH; c->n[s] = n;
      for (u32 i = 0; i < n; i++) c->v[s][i] = strtoull(p, &p, 10);
    }
  }
  free(line); fclose(f); return prop[0] != 0;
}
static const Prop *find_prop(const char *id) { for (const Prop *p = sim_props; p->id; p++) if (!strcmp(p->id, id)) return p; return 0; }

static int cmp64(const void *a, const void *b) { u64 x = *(const u64 *)a, y = *(const u64 *)b; return x < y ? -1 : x > y; }
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((u8)*s < 32) fprintf(f, " "); else fputc(*s, f); } fputc('"', f); }

int main(int argc, char **argv) {
  if (!getenv("VLSIM_NOASLR")) { setenv("VLSIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  shm = mmap(0, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char *outd = "/tmp"; u64 start = 0, count = 0; double maxsec = 1e9; const char *replay = 0, *serve = 0, *demo = 0, *pid = 0; int nviol = 0, maxviol = 1, twice = 16;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--out")) outd = argv[++i];
    else if (!strcmp(argv[i], "--start")) start = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--count")) count = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--seconds")) maxsec = atof(argv[++i]);
    else if (!strcmp(argv[i], "--twice")) twice = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--peer")) peer_exe = argv[++i];
    else if (!strcmp(argv[i], "--serve")) serve = argv[++i];
    else if (!strcmp(argv[i], "--demo")) demo = argv[++i];
    else if (!strcmp(argv[i], "--thorough")) sim_tier_thorough = 1;
    else if (!strcmp(argv[i], "--trace")) sim_tracing = 2;
    else pid = argv[i];
  }
  int want_trace = sim_tracing;
  snprintf(errfile, sizeof errfile, "%s/err.%d.txt", outd, (int)getpid());
  Choices *c = calloc(1, sizeof *c);
  if (serve) {
    snprintf(errfile, sizeof errfile, "%s", serve); Ask q; int in = dup(0), out = dup(1); dup2(2, 1); close(0);
    for (;;) {
      size_t k = 0; while (k < sizeof q) { ssize_t g = read(in, (char *)&q + k, sizeof q - k); if (g <= 0) { unlink(errfile); return 0; } k += (size_t)g; }
      memset(c, 0, sizeof *c); for (int s = 0; s < NSTREAMS; s++) { c->n[s] = q.n[s]; io_all(in, c->v[s], sizeof(u64) * q.n[s], 0); }
      cur_prop = find_prop(q.prop); if (!cur_prop) return 3;
      sim_tier_thorough = q.thorough; load(c); Res r = run_child(q.seed, 1, 0); Answer a; memset(&a, 0, sizeof a); a.cls = r.cls; a.hash = r.hash; snprintf(a.kind, sizeof a.kind, "%s", r.kind); snprintf(a.msg, sizeof a.msg, "%.590s", r.msg);
      io_all(out, &a, sizeof a, 1);
    }
  }
  peer_start();
  if (replay) {
    char prop[64], kind[64]; u64 seed;
    if (!read_replay(replay, prop, kind, &seed, c)) { fprintf(stderr, "cannot read %s\n", replay); return 3; }
    cur_prop = find_prop(prop); if (!cur_prop) { fprintf(stderr, "no such property here: %s\n", prop); return 3; }
    load(c); Res r = run_child(seed, 1, 1); u64 h1 = r.hash; load(c); Res r2 = run_child(seed, 1, 1);
    printf("%s\nresult %d %s\n%s\n", shm->log, r.cls, r.kind, r.msg);
    unlink(errfile);
    if (r.cls == 2 || r2.cls != r.cls || strcmp(r.kind, r2.kind) || h1 != r2.hash) { printf("NOT-DETERMINISTIC\n"); return 3; }
    if (r.cls == 1 && !strcmp(r.kind, kind)) { printf("REPRODUCED %s\n", kind); return 1; }
    printf("NOT-REPRODUCED\n"); return 0;
  }
  if (demo) {
    for (const Demo *d = sim_demos; d->id; d++) if (!strcmp(d->id, demo)) cur_demo = d;
    if (!cur_demo) { fprintf(stderr, "no such demo %s\n", demo); return 3; }
    memset(c, 0, sizeof *c); load(c); Res r = run_child(1, 1, 1); printf("%s\nresult %d %s\n%s\n", shm->log, r.cls, r.kind, r.msg); unlink(errfile); return r.cls;
  }
  if (!pid || !(cur_prop = find_prop(pid))) { fprintf(stderr, "unknown property\n"); return 3; }
  /* batch */
  static Stat tot[MAXSTAT]; static int ntot; static u8 cov[COVSZ]; u64 runs = 0, nontriv = 0, steps = 0, simtime = 0, det = 0; u64 *hs = 0; size_t nh = 0, caph = 0;
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int rc = 0; char samples[4][LOGSZ / 32]; int nsamples = 0; double el = 0;
  char vio[4096] = "", herr[2300] = "";
  for (u64 k = 0; k < count && nviol < maxviol; k++) {
    clock_gettime(CLOCK_MONOTONIC, &t1); el = (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec);
    if (el > maxsec) break;
    u64 seed = start + k;
    int tr = want_trace || nsamples < 3;
    Res r = run_child(seed, 0, tr);
    runs++; steps += shm->steps; simtime += shm->simtime;
    for (int i = 0; i < shm->nstat; i++) { int j; for (j = 0; j < ntot; j++) if (!strcmp(tot[j].name, shm->stat[i].name)) break; if (j == ntot && ntot < MAXSTAT) { tot[ntot++] = shm->stat[i]; } else if (j < ntot) tot[j].n += shm->stat[i].n; }
    for (int i = 0; i < COVSZ; i++) cov[i] |= shm->cov[i];
    if (shm->nontrivial) { nontriv++; if (nh == caph) { caph = caph ? 2 * caph : 1024; hs = realloc(hs, caph * sizeof *hs); } hs[nh++] = r.hash; }
    if (tr && shm->loglen) { if (nsamples < 3 && shm->nontrivial) snprintf(samples[nsamples++], sizeof samples[0], "seed %llu: %.900s", (unsigned long long)seed, shm->log); if (want_trace) printf("--- seed %llu cls %d %s %s\n%s\n", (unsigned long long)seed, r.cls, r.kind, r.msg, shm->log); }
    if (r.cls == 0 && twice > 0 && (seed % (u64)twice) == 0) { /* determinism sample: same seed again, and from its choice list */
      u64 h = r.hash; Res r2 = run_child(seed, 0, 0); det++;
      if (r2.cls != 0 || r2.hash != h) { snprintf(herr, sizeof herr, "seed %llu: second execution differs (%d %s %s)", (unsigned long long)seed, r2.cls, r2.kind, r2.msg); rc = 3; break; }
      save(c); load(c); Res r3 = run_child(seed, 1, 0);
      if (r3.cls != 0 || r3.hash != h) { snprintf(herr, sizeof herr, "seed %llu: replay of the choice list differs (%d %s %s)", (unsigned long long)seed, r3.cls, r3.kind, r3.msg); rc = 3; break; }
    }
    if (r.cls == 2) { snprintf(herr, sizeof herr, "seed %llu: %s: %.2000s", (unsigned long long)seed, r.kind, r.msg); rc = 3; break; }
    if (r.cls == 1) {
      save(c); load(c); Res r2 = run_child(seed, 1, 0);
      if (r2.cls != 1 || strcmp(r2.kind, r.kind) || r2.hash != r.hash) { snprintf(herr, sizeof herr, "seed %llu: violation %s (%.900s) does not repeat: %d %s %.900s", (unsigned long long)seed, r.kind, r.msg, r2.cls, r2.kind, r2.msg); rc = 3; break; }
      minimise(c, seed, r.kind, 600, 60);
      load(c); Res r3 = run_child(seed, 1, 1);
      if (r3.cls != 1) { snprintf(herr, sizeof herr, "seed %llu: minimised run does not fail", (unsigned long long)seed); rc = 3; break; }
      snprintf(vio, sizeof vio, "%s/%s-%llu.replay", outd, cur_prop->id, (unsigned long long)seed);
      write_replay(vio, cur_prop->id, seed, c, &r3, r.msg);
      nviol++; rc = 1;
      fprintf(stderr, "%s seed %llu %s: %s\n", cur_prop->id, (unsigned long long)seed, r3.kind, r3.msg);
    }
  }
  clock_gettime(CLOCK_MONOTONIC, &t1); el = (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec);
  unlink(errfile);
  char fn[512]; snprintf(fn, sizeof fn, "%s/batch.%llu.json", outd, (unsigned long long)start);
  FILE *f = fopen(fn, "w"); if (!f) { perror(fn); return 3; }
  int nc = 0; for (int i = 0; i < COVSZ; i++) nc += cov[i];
  qsort(hs, nh, sizeof *hs, cmp64);
  fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"simtime_us\":%llu,\"det\":%llu,\"cov\":%d,\"seconds\":%.3f,\"start\":%llu,\"rc\":%d,\"violation\":", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)simtime, (unsigned long long)det, nc, el, (unsigned long long)start, rc);
  jstr(f, vio); fprintf(f, ",\"harness_error\":"); jstr(f, herr);
  fprintf(f, ",\"stats\":{"); for (int i = 0; i < ntot; i++) { if (i) fputc(',', f); jstr(f, tot[i].name); fprintf(f, ":%llu", (unsigned long long)tot[i].n); }
  fprintf(f, "},\"samples\":["); for (int i = 0; i < nsamples; i++) { if (i) fputc(',', f); jstr(f, samples[i]); }
  fprintf(f, "],\"hashes\":["); u64 last = 0; int first = 1; for (size_t i = 0; i < nh; i++) { if (i && hs[i] == last) continue; last = hs[i]; fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)hs[i]); first = 0; }
  fprintf(f, "]}\n"); fclose(f);
  if (herr[0]) fprintf(stderr, "HARNESS-ERROR %s\n", herr);
  return rc;
}
#ifdef SIM_ASAN
const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:symbolize=1:print_legend=0:color=never:log_path=stderr"; }
#endif

