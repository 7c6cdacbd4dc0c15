/* Force-included before every translation unit of the instrumented build.
 *
 * The p4est installed here (2.3.6) predates p4est_search_reorder, which /repo's Quadtree calls; the stand-in
 * in p4est_search_reorder.cpp supplies it, with the semantics p4est 2.8 documents.  Nothing of /repo is
 * replaced. */
#ifndef VERIF_FORCE_H
#define VERIF_FORCE_H
#ifdef __cplusplus
#include <functional>
#include <cassert>
#include <cmath>
#include <map>
#include <memory>
#endif
#include <mpi.h>
#include <p4est.h>
#include <p4est_search.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*vt_search_reorder_fn)(p4est_t *p4est, p4est_topidx_t which_tree, p4est_quadrant_t *quadrant,
                                    p4est_quadrant_t *children[], p4est_locidx_t *local_num, void *point);
void p4est_search_reorder(p4est_t *p4est, int skip_levels, void *reorder_fn, p4est_search_local_t pre_quadrant_fn,
                          p4est_search_local_t post_quadrant_fn, p4est_search_local_t point_fn, sc_array_t *points);
#ifdef __cplusplus
}
#endif
#endif
