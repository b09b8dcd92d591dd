#ifndef VFS_H
#define VFS_H
#include "sim.h"
typedef struct { char name[1200]; u8 *data; size_t n, cap; int exists, unreadable; } VFile;
enum { FX_NONE, FX_OPEN_FAIL, FX_READ_EIO, FX_READ_EOF /* early end */, FX_WRITE_ENOSPC, FX_WRITE_EIO, FX_CLOSE_FAIL, FX_SYNC_AT_CLOSE };
typedef struct { int kind; char name[1200]; /* "" = any */ u64 at; /* byte position */ int skip; /* opens to let through */ int once; int fired; int seen; } VFault;
extern VFault vfs_faults[8]; extern int vfs_nfaults;
extern i64 vfs_capacity; /* bytes that can still be written, -1 = unlimited */
extern int vfs_bufmode, vfs_chunk; extern u64 vfs_short_reads; extern int vfs_open_streams; extern int vfs_enabled;
extern u64 vfs_opens;
extern char vfs_hits[64][1200]; extern int vfs_nhits; /* names of the files on which a fault fired */
extern char vfs_last_read[1200];                   /* last file opened for reading */
int vfs_was_hit(const char *name);
void vfs_reset(void);
VFile *vfs_get(const char *name, int create);
void vfs_put(const char *name, const void *p, size_t n);
void vfs_remove_all(void);
int vfs_nfiles(void); VFile *vfs_nth(int i);
FILE *sim_fopen(const char *name, const char *mode);
int sim_fclose(FILE *f);
int vfs_is_ours(FILE *f);
#endif
