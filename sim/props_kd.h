#ifndef PROPS_KD_H
#define PROPS_KD_H
#include "mods.h"
#include <vl/kdtree.h>
typedef struct { VlKDForest *f; void *x; Ins s; int isd, l1, D, N, trees, mean, kind; u64 seed, rnd; } Kdx;
void kdx_draw(Kdx *k); void kdx_build(Kdx *k); void kdx_drop(Kdx *k); void *kdx_queries(Kdx *k, Ins *s, u64 seed, int nq, double *vals);
double kdx_dist(const Kdx *k, const void *q, size_t i);
void kdx_check_nb(const Kdx *k, const char *who, const void *q, int m, const VlKDForestNeighbor *nb, int lim, i64 ncmp);
void kdx_check_batch(const Kdx *k, const void *q, int nq, int m, const vl_uint32 *ix, const void *dist, int lim, i64 ncmp);
#endif
