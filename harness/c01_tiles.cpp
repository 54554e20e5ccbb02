//@property: C01
// Block-cyclic index arithmetic of include/dlaf/matrix/util_distribution.h
#include <dlaf/matrix/util_distribution.h>
#include "vc.h"
using dlaf::SizeType;
namespace um = dlaf::util::matrix;

// Range assumption: sizes below 2^40, grids below 2^20, block factors below 2^20 (keeps every product < 2^63).
#define P_COMMON                                                        \
  long nb = vc_range("tiles_per_block", 1, 1L << 20);                   \
  int P = (int) vc_range("grid_size", 1, 1L << 20);                     \
  int src = (int) vc_range("src_rank", 0, 1L << 20);                    \
  int rank = (int) vc_range("rank", 0, 1L << 20);                       \
  long off = vc_range("tile_offset", 0, 1L << 20);                      \
  vc_assume((src < P) & (rank < P) & (off < nb));

VC_PROOF(owner_in_range, "") {
  P_COMMON
  long gt = vc_range("gt", 0, 1L << 40);
  int o = um::rank_global_tile(gt, nb, P, src, off);
  vc_cover("owner");
  vc_assert((0 <= o) & (o < P), "owner rank is inside the grid");
}

VC_PROOF(global_local_global, "") {
  P_COMMON
  long gt = vc_range("gt", 0, 1L << 40);
  int o = um::rank_global_tile(gt, nb, P, src, off);
  long lt = um::local_tile_from_global_tile(gt, nb, P, rank, src, off);
  vc_cover("any");
  if (rank != o) {
    vc_assert(lt == -1, "non-owners report no local tile");
    return;
  }
  vc_cover("owner");
  vc_assert(lt >= 0, "owner has a local index");
  long gb = (gt + off) / nb, rel = (rank + P - src) % P;
  vc_lemma((gb + src) % P == rank);
  vc_lemma((gb - rel) - P * ((gb + src) / P - 1 + (rank + P - src) / P) == 0);
  vc_lemma(gb % P == rel);
  long back = um::global_tile_from_local_tile(lt, nb, P, rank, src, off);
  vc_assert(back == gt, "global->local->global is the identity");
}

VC_PROOF(local_global_local, "") {
  P_COMMON
  long lt = vc_range("lt", 0, 1L << 40);
  long gt = um::global_tile_from_local_tile(lt, nb, P, rank, src, off);
  vc_cover("any");
  vc_assert(gt >= 0, "global index nonneg");
  long llt = lt + (rank == src ? off : 0), lb = llt / nb, rel = (rank + P - src) % P;
  vc_lemma((gt + off) / nb == P * lb + rel);
  vc_lemma((gt + off) % nb == llt % nb);
  vc_lemma(((gt + off) / nb) / P == lb);
  int o = um::rank_global_tile(gt, nb, P, src, off);
  vc_assert(o == rank, "a local tile is owned by its rank");
  long back = um::local_tile_from_global_tile(gt, nb, P, rank, src, off);
  vc_assert(back == lt, "local->global->local is the identity");
}

VC_PROOF(next_local, "") {
  P_COMMON
  long gt = vc_range("gt", 0, 1L << 40);
  long nx = um::next_local_tile_from_global_tile(gt, nb, P, rank, src, off);
  vc_cover("any");
  vc_assert(nx >= 0, "next local index nonneg");
  long g = um::global_tile_from_local_tile(nx, nb, P, rank, src, off);
  vc_assert(g >= gt, "next local tile is not before the requested one");
  if (nx > 0) {
    vc_cover("prev");
    long g1 = um::global_tile_from_local_tile(nx - 1, nb, P, rank, src, off);
    vc_assert(g1 < gt, "and it is the first such tile");
  }
}

VC_PROOF(monotone, "") {
  P_COMMON
  long a = vc_range("lt_a", 0, 1L << 40), b = vc_range("lt_b", 0, 1L << 40);
  vc_assume(a < b);
  vc_cover("any");
  vc_assert(um::global_tile_from_local_tile(a, nb, P, rank, src, off) < um::global_tile_from_local_tile(b, nb, P, rank, src, off), "local order preserves global order");
}

VC_PROOF(element_tile, "") {
  long ts = vc_range("tile_size", 1, 1L << 20), off = vc_range("off", 0, 1L << 20), e = vc_range("element", 0, 1L << 40);
  vc_assume(off < ts);
  long t = um::tile_from_element(e, ts, off);
  long te = um::tile_element_from_element(e, ts, off);
  vc_cover("any");
  vc_assert((t >= 0) & (te >= 0) & (te < ts) & ((t > 0) | (te < ts - off)), "tile element in its tile");
  vc_assert(um::element_from_tile_and_tile_element(t, te, ts, off) == e, "element->tile->element identity");
}

VC_PROOF(tile_element, "") {
  long ts = vc_range("tile_size", 1, 1L << 20), off = vc_range("off", 0, 1L << 20), t = vc_range("tile", 0, 1L << 40), te = vc_range("te", 0, 1L << 20);
  vc_assume((off < ts) & (te < ts) & ((t > 0) | (te < ts - off)));
  vc_cover("any");
  long e = um::element_from_tile_and_tile_element(t, te, ts, off);
  vc_assert(e >= 0, "element nonneg");
  vc_assert(um::tile_from_element(e, ts, off) == t, "tile->element->tile identity");
  vc_assert(um::tile_element_from_element(e, ts, off) == te, "tile element identity");
}
