/* Stand-in for p4est_search_reorder (p4est >= 2.8; 2.3.6 is installed here).
 *
 * Documented behaviour reproduced: a process-local depth-first traversal of every branch that contains at least
 * one local leaf, starting at the tree root (skip_levels = 0: no level is skipped), children in Morton order.
 * pre_quadrant_fn runs before the children and, returning false, prunes the branch; post_quadrant_fn runs after
 * them.  local_num is the local leaf number for a leaf and -1 for a branch.  Points and reordering are unused by
 * /repo and unsupported here. */
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <cstdio>
#include <cstdlib>

static void recurse(p4est_t *p4est, p4est_topidx_t t, p4est_tree_t *tree, const p4est_quadrant_t &q, size_t lo,
                    size_t hi, p4est_search_local_t pre, p4est_search_local_t post) {
    if (lo >= hi) return;
    p4est_quadrant_t *first = p4est_quadrant_array_index(&tree->quadrants, lo);
    p4est_quadrant_t quadrant = q;
    bool leaf = (hi - lo == 1) && p4est_quadrant_is_equal(first, &quadrant);
    p4est_locidx_t local_num = leaf ? (p4est_locidx_t)(tree->quadrants_offset + lo) : -1;
    if (leaf) quadrant = *first; // carries the leaf's user data
    if (pre != nullptr && !pre(p4est, t, &quadrant, local_num, nullptr)) return;
    if (!leaf) {
        p4est_quadrant_t c[4];
        p4est_quadrant_childrenv(&q, c);
        size_t begin = lo;
        for (int i = 0; i < 4; i++) {
            size_t end = begin;
            while (end < hi) {
                p4est_quadrant_t *lq = p4est_quadrant_array_index(&tree->quadrants, end);
                if (p4est_quadrant_is_equal(lq, &c[i]) || p4est_quadrant_is_ancestor(&c[i], lq)) end++;
                else break;
            }
            recurse(p4est, t, tree, c[i], begin, end, pre, post);
            begin = end;
        }
        if (begin != hi) { fprintf(stderr, "stand-in p4est_search_reorder: corrupt forest\n"); abort(); }
    }
    if (post != nullptr) post(p4est, t, &quadrant, local_num, nullptr);
}

extern "C" void p4est_search_reorder(p4est_t *p4est, int skip_levels, void *reorder_fn, p4est_search_local_t pre,
                                     p4est_search_local_t post, p4est_search_local_t point_fn, sc_array_t *points) {
    if (skip_levels != 0 || reorder_fn != nullptr || points != nullptr) {
        fprintf(stderr, "stand-in p4est_search_reorder: unsupported arguments\n");
        abort();
    }
    if (p4est->first_local_tree < 0) return; // no local leaves
    for (p4est_topidx_t t = p4est->first_local_tree; t <= p4est->last_local_tree; t++) {
        p4est_tree_t *tree = p4est_tree_array_index(p4est->trees, t);
        p4est_quadrant_t root;
        p4est_quadrant_set_morton(&root, 0, 0);
        root.p.which_tree = t;
        recurse(p4est, t, tree, root, 0, tree->quadrants.elem_count, pre, post);
    }
}
