//@property: C15
//@stubs: 1
//@assume: sizes below 2^40, tile sizes, tiles per block and numbers of ranks below 2^20
//@trusted: Matrix::read and Matrix::readwrite of a global tile give access to that tile (verified in C12 and C14)
// Which elements the tiles of a reference to a part of a matrix, and of a view of a part, refer to.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <matrix/matrix_ref.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/views.h>
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;

template <Coord C> LocalTileIndex lix(long n) { return C == Coord::Row ? LocalTileIndex(n, 0) : LocalTileIndex(0, n); }

// ---- views: the part of a matrix below and right of an element
// the other dimension: 5 elements in tiles of 2, offset 1: tiles of 1, 2, 2 elements, all of them here
static long other_tile(long e) { return (e + 1) / 2; }
static long other_first(long t) { return t == 0 ? 0 : 2 * t - 1; }
template <Coord C> static long along(const TileElementIndex& i) { return i.get<C>(); }

// the view of the part that starts at an element: an element b is in it if and only if it does not come before
template <Coord C, class V> static void covers(const V& v, const Distribution& d, const Par& p, const Elem& o, const Elem& a, long ob, long oe, long width, int how) {
  // tiles are ordered as the elements
  if (how != 0) {
    vc_split(a.y == o.y);
    vc_lemma((a.gt < o.gt) == ((a.y < o.y) | ((a.y == o.y) & ((a.x < o.x) | ((a.x == o.x) & (a.t < o.t))))));
    vc_lemma((a.gt >= o.gt) | (a.i < o.i));
    vc_lemma((a.gt <= o.gt) | (a.i > o.i));
  }
  const long l = a.y * p.k + a.t - (p.q == 0 ? p.to : 0), t = other_tile(oe);
  const LocalTileIndex at = C == Coord::Row ? LocalTileIndex(l, t) : LocalTileIndex(t, l);
  const bool in = (a.i >= o.i) & (oe >= ob) & (oe < ob + width), tile_in = (a.gt >= o.gt) & (t >= other_tile(ob)) & (t <= other_tile(ob + width - 1));
  const bool listed = isIndexInRange(at, v.iteratorLocal());
  vc_assert(listed == tile_in, "the range has the tiles with elements of the part");
  if (how < 0)
    return;
  vc_cover("in");
  const SubTileSpec s = v(at);
  const long pos = a.e - (a.gt == 0 ? p.eo : 0), opos = oe - other_first(t);
  constexpr Coord O = orthogonal(C);
  const bool here = (s.origin.template get<C>() <= pos) & (pos < s.origin.template get<C>() + s.size.template get<C>());
  const bool there = (s.origin.template get<O>() <= opos) & (opos < s.origin.template get<O>() + s.size.template get<O>());
  vc_assert(here == (a.i >= o.i), "the elements of the part, in one dimension");
  vc_assert(there == ((oe >= ob) & (oe < ob + width)), "and in the other");
  vc_assert((here & there) == in, "the elements of the part");
  vc_assert((s.origin.template get<C>() >= 0) & (s.origin.template get<C>() + s.size.template get<C>() <= d.global_tile_size_of<C>(a.gt)), "inside the tile");
  vc_assert((s.origin.template get<O>() >= 0) & (s.origin.template get<O>() + s.size.template get<O>() <= (t == 0 ? 1 : 2)), "inside the tile");
}
// concrete choice
static long pick(const char* name, int n) {
  const long k = vc_range(name, 0, n - 1);
  for (int i = 0; i < n - 1; ++i) vc_split(k == i);
  for (int i = 0; i < n - 1; ++i)
    if (k == i) return i;
  return n - 1;
}
// an element of this rank in the same tile as the origin, in a later one, in an earlier one
static Elem local_elem(const Par& p, const Elem& o, int how) {
  if (how == 0) {
    Elem a = o;
    a.e = vc_range("element_in_tile", 0, lim(1L << 20, 3));
    a.i = a.gt * p.nb + a.e - p.eo;
    vc_assume((o.x == p.q) & (a.e < p.nb) & (0 <= a.i) & (a.i < p.n));
    return a;
  }
  const Elem a = any_elem(p);
  vc_assume((a.x == p.q) & (how < 0 ? a.gt < o.gt : a.gt > o.gt));
  return a;
}
#define ALL(name) \
  VC_PROOF(name##_row_before, "") { name<Coord::Row>(-1); } \
  VC_PROOF(name##_col_before, "") { name<Coord::Col>(-1); } \
  VC_PROOF(name##_row_same, "") { name<Coord::Row>(0); } \
  VC_PROOF(name##_col_same, "") { name<Coord::Col>(0); } \
  VC_PROOF(name##_row_after, "") { name<Coord::Row>(1); } \
  VC_PROOF(name##_col_after, "") { name<Coord::Col>(1); }

template <Coord C> static void sub_matrix(int how) {
  Par p = any_par();
  const Distribution d = dist<C>(p);
  const Elem o = any_elem(p);
  const Elem a = local_elem(p, o, how);
  const long ob = 2, oe = 2;
  vc_cover("any");
  const SubMatrixView v(d, gix<C>(o.i, ob));
  vc_assert(v.offsetElement() == gix<C>(o.i, ob), "origin");
  vc_assert(v.offset() == (C == Coord::Row ? GlobalTileIndex(o.gt, other_tile(ob)) : GlobalTileIndex(other_tile(ob), o.gt)), "tile of the origin");
  covers<C>(v, d, p, o, a, ob, oe, 5 - ob, how);
}
ALL(sub_matrix)

// ---- views of a panel: a part of one column of tiles
static void panel_rows(int how) {
  Par p = any_par();
  const Distribution d = dist<Coord::Row>(p);
  const Elem o = any_elem(p);
  const Elem a = local_elem(p, o, how);
  vc_cover("any");
  const SubPanelView v(d, gix<Coord::Row>(o.i, 1), 1);
  vc_assert(v.offsetElement() == gix<Coord::Row>(o.i, 1) && v.cols() == 1, "origin");
  covers<Coord::Row>(v, d, p, o, a, 1, 1, 1, how);
}
VC_PROOF(panel_rows_before, "") { panel_rows(-1); }
VC_PROOF(panel_rows_same, "") { panel_rows(0); }
VC_PROOF(panel_rows_after, "") { panel_rows(1); }
VC_PROOF(panel_cols, "") {
  Par p = any_par();
  const Distribution d = dist<Coord::Col>(p);
  const Elem o = any_elem(p);
  const Elem a = local_elem(p, o, 0);
  const long width = vc_range("width", 1, lim(1L << 20, 4));
  // inside one column of tiles, or up to the end of the matrix
  vc_assume((o.e + width <= p.nb) & ((o.gt > 0) | (o.e - p.eo + width <= p.nb)));
  vc_cover("any");
  const SubPanelView v(d, gix<Coord::Col>(o.i, 2), width);
  const long l = a.y * p.k + a.t - (p.q == 0 ? p.to : 0);
  vc_assert(isIndexInRange(LocalTileIndex(1, l), v.iteratorLocal()), "the column of tiles");
  vc_assert(!isIndexInRange(LocalTileIndex(1, l + 1), v.iteratorLocal()), "and no other");
  vc_assert(!isIndexInRange(LocalTileIndex(1, l - 1), v.iteratorLocal()), "and no other");
  const SubTileSpec s = v(LocalTileIndex(1, l));
  const long pos = a.e - (a.gt == 0 ? p.eo : 0);
  const bool here = (s.origin.col() <= pos) & (pos < s.origin.col() + s.size.cols());
  vc_assert(here == ((a.i >= o.i) & (a.i < o.i + width)), "the columns of the panel");
  vc_assert((s.origin.row() == 1) & (s.size.rows() == 1), "the rows of the panel");
  vc_assert((s.origin.col() >= 0) & (s.origin.col() + s.size.cols() <= d.global_tile_size_of<Coord::Col>(a.gt)), "inside the tile");
}
VC_PROOF(empty, "") {
  Free p = any_free(true);
  const Distribution d = make<Coord::Row>(0, p.nb, p.k, p.P, p.rank, p.src, p.to * p.nb + p.eo);
  vc_cover("any");
  const long i = vc_range("i", 0, lim(1L << 40, 5)), j = vc_range("j", 0, lim(1L << 40, 5));
  vc_assert(SubMatrixView(d, GlobalElementIndex(i, j)).iteratorLocal().empty(), "nothing in a view of an empty matrix");
  vc_assert(SubPanelView(d, GlobalElementIndex(i, j), 1).iteratorLocal().empty(), "nothing in a view of an empty matrix");
}
