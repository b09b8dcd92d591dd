/* Simulated file system behind stdio streams: short reads, input errors, early end, full or failing medium, failing open and close. */
#define _GNU_SOURCE
#include "vfs.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
static VFile files[256]; static int nfiles;
VFault vfs_faults[8]; int vfs_nfaults; i64 vfs_capacity = -1; int vfs_bufmode, vfs_chunk; u64 vfs_short_reads; int vfs_open_streams, vfs_enabled = 1; u64 vfs_opens;
typedef struct { VFile *f; size_t pos; int wr; FILE *fp; int open; VFault *ft; int failed; } Cookie;
static Cookie *cookies[512]; static int ncookies;
char vfs_hits[64][1200]; int vfs_nhits; char vfs_last_read[1200];
int vfs_was_hit(const char *name) { for (int i = 0; i < vfs_nhits; i++) if (!strcmp(vfs_hits[i], name)) return 1; return 0; }
static void hit(const char *name) { if (vfs_nhits < 64 && !vfs_was_hit(name)) snprintf(vfs_hits[vfs_nhits++], sizeof vfs_hits[0], "%s", name); }
void vfs_reset(void) { for (int i = 0; i < nfiles; i++) free(files[i].data); memset(files, 0, sizeof files); nfiles = 0; vfs_nfaults = 0; memset(vfs_faults, 0, sizeof vfs_faults); vfs_capacity = -1; vfs_bufmode = 0; vfs_chunk = 0; vfs_open_streams = 0; vfs_nhits = 0; vfs_last_read[0] = 0; }
VFile *vfs_get(const char *name, int create) {
  for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, name)) { if (files[i].exists || create) { files[i].exists = 1; return files + i; } return 0; }
  if (!create || nfiles == 256) return 0;
  VFile *f = files + nfiles++; snprintf(f->name, sizeof f->name, "%s", name); f->exists = 1; return f;
}
void vfs_put(const char *name, const void *p, size_t n) { VFile *f = vfs_get(name, 1); if (!f) sim_harness_error("too many files"); free(f->data); f->data = malloc(n + 1); memcpy(f->data, p, n); f->n = f->cap = n; }
int vfs_nfiles(void) { return nfiles; }
VFile *vfs_nth(int i) { return files + i; }
static void fired(VFault *t, const char *name, const char *what) { hit(name); if (!t->fired) { char b[64]; snprintf(b, sizeof b, "fault.%s", what); sim_stat(b, 1); sim_nontrivial(); sim_log("  medium: %s on %s at byte %llu", what, t->name[0] ? t->name : "(any)", (unsigned long long)t->at); sim_event(hash_bytes(what, strlen(what), t->at)); } t->fired++; }
static ssize_t rd(void *c_, char *b, size_t n) {
  Cookie *c = c_; size_t left = c->f->n > c->pos ? c->f->n - c->pos : 0;
  if (n > left) n = left;
  if (vfs_chunk && n > 1) { size_t lim = vfs_chunk == 1 ? 1 : 1 + (size_t)((c->pos * 2654435761u + (size_t)vfs_chunk) % (size_t)vfs_chunk); if (n > lim) { n = lim; vfs_short_reads++; } }
  if (c->ft && (c->ft->kind == FX_READ_EIO || c->ft->kind == FX_READ_EOF)) {
    if (c->pos >= c->ft->at) {
      if (c->ft->kind == FX_READ_EIO) { fired(c->ft, c->f->name, "read_EIO"); errno = EIO; return -1; }
      fired(c->ft, c->f->name, "read_early_end"); return 0;
    }
    if (c->pos + n > c->ft->at) n = (size_t)(c->ft->at - c->pos);
  }
  if (n) memcpy(b, c->f->data + c->pos, n); /* n = 0 at end */
  c->pos += n; return (ssize_t)n;
}
static ssize_t wr(void *c_, const char *b, size_t n) {
  Cookie *c = c_; size_t ok = n; int err = 0;
  if (c->ft && (c->ft->kind == FX_WRITE_ENOSPC || c->ft->kind == FX_WRITE_EIO) && c->pos + n > c->ft->at && !(c->ft->once && c->failed)) {
    ok = c->pos >= c->ft->at ? 0 : (size_t)(c->ft->at - c->pos); err = c->ft->kind == FX_WRITE_EIO ? EIO : ENOSPC; fired(c->ft, c->f->name, err == EIO ? "write_EIO" : "write_ENOSPC"); c->failed = 1;
  }
  if (vfs_capacity >= 0 && (i64)ok > vfs_capacity) { ok = (size_t)vfs_capacity; err = ENOSPC; sim_stat("fault.medium_full", 1); sim_nontrivial(); hit(c->f->name); sim_log("  medium: full while writing %s at byte %zu", c->f->name, c->pos + ok); }
  if (c->pos + ok > c->f->cap) { c->f->cap = 2 * (c->pos + ok) + 256; c->f->data = realloc(c->f->data, c->f->cap); }
  if (ok) memcpy(c->f->data + c->pos, b, ok);
  c->pos += ok; if (c->pos > c->f->n) c->f->n = c->pos;
  if (vfs_capacity >= 0) vfs_capacity -= (i64)ok;
  if (err) { errno = err; return 0; } /* glibc takes 0 as an error of a cookie stream */
  return (ssize_t)ok;
}
static int sk(void *c_, off64_t *o, int wh) { Cookie *c = c_; i64 p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (i64)c->pos + *o : (i64)c->f->n + *o; if (p < 0) { errno = EINVAL; return -1; } c->pos = (size_t)p; *o = p; return 0; }
static int cl(void *c_) {
  Cookie *c = c_; c->open = 0;
  if (c->ft && c->ft->kind == FX_CLOSE_FAIL) { /* the data kept back by the medium is lost */ fired(c->ft, c->f->name, "close_EIO"); if (c->wr) c->f->n = c->ft->at < c->f->n ? (size_t)c->ft->at : c->f->n; errno = EIO; return -1; }
  return 0;
}
FILE *sim_fopen(const char *name, const char *mode) {
  int w = mode[0] == 'w' || mode[0] == 'a'; VFault *ft = 0; vfs_opens++; if (!w) snprintf(vfs_last_read, sizeof vfs_last_read, "%s", name);
  for (int i = 0; i < vfs_nfaults; i++) { VFault *t = vfs_faults + i; if (t->name[0] && strcmp(t->name, name)) continue; int isw = t->kind == FX_WRITE_ENOSPC || t->kind == FX_WRITE_EIO || t->kind == FX_CLOSE_FAIL; int isr = t->kind == FX_READ_EIO || t->kind == FX_READ_EOF; if ((isw && !w) || (isr && w)) continue; if (t->seen++ < t->skip) continue; ft = t; break; }
  if (ft && ft->kind == FX_OPEN_FAIL) { fired(ft, name, w ? "open_write_EACCES" : "open_read_EACCES"); errno = EACCES; return 0; }
  VFile *f = vfs_get(name, w); if (!f) { errno = ENOENT; return 0; }
  if (mode[0] == 'w') f->n = 0;
  Cookie *c = calloc(1, sizeof *c); c->f = f; c->wr = w; c->open = 1; c->ft = ft; if (mode[0] == 'a') c->pos = f->n;
  cookie_io_functions_t io = {rd, wr, sk, cl};
  FILE *fp = fopencookie(c, mode, io); if (!fp) sim_harness_error("fopencookie");
  c->fp = fp; if (ncookies < 512) cookies[ncookies++] = c; else sim_harness_error("too many streams");
  if (vfs_bufmode == 1) setvbuf(fp, 0, _IONBF, 0); else if (vfs_bufmode > 1) { setvbuf(fp, malloc((size_t)vfs_bufmode), _IOFBF, (size_t)vfs_bufmode); }
  vfs_open_streams++;
  return fp;
}
int vfs_is_ours(FILE *f) { for (int i = 0; i < ncookies; i++) if (cookies[i]->fp == f && cookies[i]->open) return 1; return 0; }
int sim_fclose(FILE *f) {
  int ours = 0; for (int i = ncookies - 1; i >= 0; i--) if (cookies[i]->fp == f) { ours = 1; if (!cookies[i]->open) sim_violation("double-close", "stream of '%s' closed twice", cookies[i]->f->name); cookies[i]->fp = 0; break; }
  if (!ours) sim_violation("bad-close", "fclose of a stream that is not open");
  vfs_open_streams--;
  return fclose(f);
}
