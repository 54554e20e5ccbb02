//@property: C16
//@stubs: 1
//@assume: bounded: panels of three tiles (setTile, read, readwrite and reset), one access to each of two tiles before
//@trusted: pika::async_rw_mutex grants accesses in the order in which they were requested, consecutive reads together (stubs/pika); rebalancing in std::set
// Panels: tiles set from outside until reset.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <matrix/matrix_ref.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/panel.h>
#include "vc_rbtree.h"
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
using T = double;
using M = Matrix<T, Device::CPU>;
using W = Tile<T, Device::CPU>;
using R = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<T, Device::CPU>;
static const StoreTransposed No = StoreTransposed::No, Yes = StoreTransposed::Yes;

static int pick(const char* name, int n) {
  const long k = vc_range(name, 0, n - 1);
  for (int i = 0; i < n - 1; ++i) vc_split(k == i);
  for (int i = 0; i < n - 1; ++i)
    if (k == i) return i;
  return n - 1;
}
// 9 elements (times 3) in tiles of two (times 2) on two ranks: tiles of 2, 2 and 1 elements on the first one
template <Coord C> LocalTileIndex lt(long i) { return LocalTileIndex(C, i); }
template <Coord C> static Distribution dist() {
  return C == Coord::Row ? Distribution(GlobalElementSize(9, 3), TileElementSize(2, 2), comm::Size2D(2, 1), comm::Index2D(0, 0), comm::Index2D(0, 0))
                         : Distribution(GlobalElementSize(3, 9), TileElementSize(2, 2), comm::Size2D(1, 2), comm::Index2D(0, 0), comm::Index2D(0, 0));
}
template <Coord C, StoreTransposed S> using PanelOf = Panel<orthogonal(C), T, Device::CPU, S>;
// the tiles from outside: those of another matrix, in the layout in which the panel keeps its tiles
template <Coord C, StoreTransposed S> static M outside(T* p) {
  constexpr bool col = (C == Coord::Row) == (S == No);
  return M(ColMajorLayout(col ? Distribution(GlobalElementSize(5, 2), TileElementSize(2, 2), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0))
                              : Distribution(GlobalElementSize(2, 5), TileElementSize(2, 2), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)), 5), p);
}
template <Coord C, StoreTransposed S> static LocalTileIndex at(long i) {
  return (C == Coord::Row) == (S == No) ? LocalTileIndex(i, 0) : LocalTileIndex(0, i);
}
template <Coord C, StoreTransposed S> static T* external_ptr(T* p, long i) { return (C == Coord::Row) == (S == No) ? p + 2 * i : p + 5 * 2 * i; }
template <Coord C, StoreTransposed S> static TileElementSize size_of(long i) {
  const long n = i == 2 ? 1 : 2;
  return (C == Coord::Row) == (S == No) ? TileElementSize(n, 2) : TileElementSize(2, n);
}

// one access
struct Acc {
  bool granted = false;
  std::optional<W> w;
  std::optional<R> r;
  template <class P> Acc(P& p, bool write, LocalTileIndex i) {
    if (write) ex::start_detached(p.readwrite(i) | ex::then([this](W x) { w.emplace(std::move(x)); granted = true; }));
    else ex::start_detached(p.read(i) | ex::then([this](R x) { r.emplace(std::move(x)); granted = true; }));
  }
  const Tile<const T, Device::CPU>& tile() const { return w ? static_cast<const Tile<const T, Device::CPU>&>(*w) : r->get(); }
  void release() { w.reset(); r.reset(); }
};
static const T* where(const Acc& a) { return a.tile().ptr(); }
static bool inside(const T* q, T* p) { return vc_same(q, p); }

// what was done to a tile since the last reset
enum Op { nothing, set, read, write };
template <Coord C, StoreTransposed S> static void apply(Op op, PanelOf<C, S>& panel, M& m, long i) {
  if (op == set) panel.setTile(lt<C>(i), m.read(at<C, S>(i)));
  else if (op == read) { Acc a(panel, false, lt<C>(i)); vc_assert(a.granted, "not in use"); a.release(); }
  else if (op == write) { Acc a(panel, true, lt<C>(i)); vc_assert(a.granted, "not in use"); a.release(); }
}
static Op any_op(const char* n) { return (Op) pick(n, 4); }

template <Coord C, StoreTransposed S> static void states() {
  T* const p = (T*) vc_alloc(10 * sizeof(T), "outside");
  M m = outside<C, S>(p);
  PanelOf<C, S> panel(dist<C>());
  const int i = 2 * pick("tile", 2), j = 1;
  const Op before = any_op("before_reset");
  const bool again = before != nothing;
  if (again) {
    apply<C, S>(before, panel, m, i);
    panel.reset();
    Acc w(m, true, at<C, S>(i));
    vc_assert(w.granted, "a reset panel does not hold tiles from outside");
    w.release();
  }
  const Op first = any_op("to_other"), second = any_op("to_tile");
  apply<C, S>(first, panel, m, j);
  apply<C, S>(second, panel, m, i);
  vc_cover("any");
  {
    Acc r(panel, false, lt<C>(i)), o(panel, false, lt<C>(j));
    vc_assert(r.granted && o.granted, "not in use");
    vc_assert(r.tile().size() == (size_of<C, S>(i)), "size of a tile");
    vc_assert(second == set ? where(r) == (external_ptr<C, S>(p, i)) : !inside(where(r), p), "a tile set from outside is that tile, others are those of the panel");
    vc_assert(first == set ? where(o) == (external_ptr<C, S>(p, j)) : !inside(where(o), p), "also next to it");
    Acc w(m, true, at<C, S>(i));
    vc_assert(w.granted == (second != set), "nobody writes to a tile from outside while the panel reads it");
    r.release();
    vc_assert(w.granted == (second != set), "or has it");
    panel.reset();
    vc_assert(w.granted, "until it is reset");
    o.release();
  }
  Acc a(panel, true, lt<C>(i));
  vc_assert(a.granted && !inside(where(a), p), "after a reset the tiles are those of the panel");
}
// the accesses to the tiles of a panel are granted in order
template <Coord C, StoreTransposed S> static void order() {
  T* const p = (T*) vc_alloc(10 * sizeof(T), "outside");
  M m = outside<C, S>(p);
  PanelOf<C, S> panel(dist<C>());
  const int i = pick("tile", 3);
  const bool w1 = pick("first", 2), w2 = pick("second", 2), reset = pick("reset", 2);
  vc_cover("any");
  Acc a(panel, w1, lt<C>(i));
  vc_assert(a.granted, "not in use");
  const T* q = where(a);
  if (reset) panel.reset();
  Acc b(panel, w2, lt<C>(i));
  vc_assert(b.granted == (!w1 && !w2), "reads together, writes alone");
  a.release();
  vc_assert(b.granted && where(b) == q, "then it is granted, on the same memory");
  Acc c(panel, w1, lt<C>((i + 1) % 3));
  vc_assert(c.granted && !vc_same(where(c), q), "the tiles of a panel are disjoint");
}
// at most one tile from outside, and not after the panel's own one was used
template <Coord C, StoreTransposed S> static void rejected() {
  T* const p = (T*) vc_alloc(10 * sizeof(T), "outside");
  M m = outside<C, S>(p);
  PanelOf<C, S> panel(dist<C>());
  const int i = pick("tile", 3);
  const Op first = any_op("to_tile");
  vc_assume(first != nothing);
  apply<C, S>(first, panel, m, i);
  vc_cover("any");
  vc_allow_abort(true);
  if (first == set && pick("write", 2)) panel.readwrite(lt<C>(i));
  else panel.setTile(lt<C>(i), m.read(at<C, S>(i)));
  vc_allow_abort(false);
  vc_unreachable("a tile set from outside is written to, or a tile in use is set");
}
// a panel that is destroyed releases the tiles from outside
template <Coord C, StoreTransposed S> static void destroyed() {
  T* const p = (T*) vc_alloc(10 * sizeof(T), "outside");
  M m = outside<C, S>(p);
  const int i = pick("tile", 3);
  const bool keep = pick("keep", 2);
  std::optional<Acc> r;
  {
    PanelOf<C, S> panel(dist<C>());
    panel.setTile(lt<C>(i), m.read(at<C, S>(i)));
    r.emplace(panel, false, lt<C>(i));
    if (!keep) r->release();
  }
  vc_cover("any");
  Acc w(m, true, at<C, S>(i));
  vc_assert(w.granted == !keep, "a panel that is gone holds nothing");
  r->release();
  vc_assert(w.granted, "nor does who read from it");
}
#define PANELS(name) \
  VC_PROOF(name##_col, "") { name<Coord::Row, No>(); } \
  VC_PROOF(name##_row, "") { name<Coord::Col, No>(); } \
  VC_PROOF(name##_col_transposed, "") { name<Coord::Row, Yes>(); } \
  VC_PROOF(name##_row_transposed, "") { name<Coord::Col, Yes>(); }
PANELS(states)
PANELS(order)
PANELS(rejected)
PANELS(destroyed)
