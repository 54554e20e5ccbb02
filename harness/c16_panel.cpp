//@property: C16
//@stubs: 1
//@assume: sizes below 2^40, tile sizes and numbers of ranks below 2^20
//@trusted: the tiles of the local matrix behind a panel are disjoint (verified in C12); std::set and std::vector of the standard library
// Panels: which tiles they have, of which sizes, and where these are kept.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <matrix/matrix_ref.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/panel.h>
#include "vc_rbtree.h"
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using T = double;
using M = Matrix<T, Device::CPU>;
using MC = Matrix<const T, Device::CPU>;
using W = Tile<T, Device::CPU>;
using Pipe = matrix::internal::TilePipeline<T, Device::CPU>;
using RO = ReadOnlyTileSender<T, Device::CPU>;
using Externals = dlaf::common::internal::vector<RO>;
static const StoreTransposed No = StoreTransposed::No, Yes = StoreTransposed::Yes;

// ---- the local matrix behind a panel: tiles made on request; which one was asked for
static struct { long tile; W* made; Pipe* pipe; int reads, writes; T* memory; } g;
static void make_tile(const MC* m, const LocalTileIndex& i) {
  vc_requires(i.isIn(m->distribution().local_nr_tiles()), "a tile of the local matrix");
  vc_requires((i.row() == 0) | (i.col() == 0), "one row or column of tiles");
  const TileElementSize s = m->distribution().tile_size_of(GlobalTileIndex(i.row(), i.col()));
  g.tile = i.row() + i.col();
  const long n = s.rows() * s.cols();
  g.memory = (T*) vc_alloc(n * sizeof(T), "tile");
  g.pipe = new Pipe(W(s, memory::MemoryView<T, Device::CPU>(g.memory, n), s.rows()));
}
static RO c_read(MC* m, const LocalTileIndex& i) {
  make_tile(m, i);
  ++g.reads;
  return g.pipe->read();
}
static ReadWriteTileSender<T, Device::CPU> c_readwrite(M* m, const LocalTileIndex& i) {
  make_tile(m, i);
  ++g.writes;
  return g.pipe->readwrite();
}
VC_CONTRACT("read", "dlaf::matrix::Matrix<double const, (dlaf::Device)0>::read(dlaf::common::Index2D<long, dlaf::matrix::LocalTile_TAG> const&)", &c_read)
VC_CONTRACT("readwrite", "dlaf::matrix::Matrix<double, (dlaf::Device)0>::readwrite(dlaf::common::Index2D<long, dlaf::matrix::LocalTile_TAG> const&)", &c_readwrite)
// its distribution, in closed form; its tiles are not made
static struct { bool row; long tiles, size; } closed;
static void c_no_tiles(M* m, const AllocationSpec&) {
  const Distribution& d = m->distribution();
  if (closed.row) {
    fold<Coord::Row>(d.size(), closed.size, "size of the local matrix");
    fold<Coord::Row>(d.local_size(), closed.size, "size of the local matrix");
    fold<Coord::Row>(d.nr_tiles(), closed.tiles, "number of tiles of the local matrix");
    fold<Coord::Row>(d.local_nr_tiles(), closed.tiles, "number of tiles of the local matrix");
  }
  else {
    fold<Coord::Col>(d.size(), closed.size, "size of the local matrix");
    fold<Coord::Col>(d.local_size(), closed.size, "size of the local matrix");
    fold<Coord::Col>(d.nr_tiles(), closed.tiles, "number of tiles of the local matrix");
    fold<Coord::Col>(d.local_nr_tiles(), closed.tiles, "number of tiles of the local matrix");
  }
}
VC_CONTRACT("set_up", "dlaf::matrix::Matrix<double, (dlaf::Device)0>::set_up_non_preallocated_tiles(dlaf::matrix::AllocationSpec const&)", &c_no_tiles)

// ---- the tiles set from outside: the one that is asked for
static struct { long n; RO* tile; } x;
static void c_resize(Externals*, long n) { x.n = n; }
static long c_size(const Externals*) { return x.n; }
static RO& c_at(Externals*, long i) {
  vc_requires((0 <= i) & (i < x.n), "index of a tile of the panel");
  return *x.tile;
}
VC_CONTRACT("resize", "dlaf::common::internal::vector<%>::resize(long)", &c_resize)
VC_CONTRACT("size", "dlaf::common::internal::vector<%>::size() const", &c_size)
VC_CONTRACT("at", "dlaf::common::internal::vector<%>::operator[](long)", &c_at)
VC_CONTRACT("at_const", "dlaf::common::internal::vector<%>::operator[](long) const", &c_at)
struct Dist { long n, nb, P, Q, R, w, q, nt, lnt, lsz; int rank, src; };
static Dist any_dist(bool one) {
  Dist p;
  p.nb = vc_range("tile_size", 1, lim(1L << 20, 4));
  p.P = one ? 1 : vc_range("grid_size", 2, lim(1L << 20, 3));
  p.Q = vc_range("last_tile_round", 0, lim(1L << 40, 3));
  p.R = one ? 0 : vc_range("last_tile_rank", 0, lim(1L << 20, 3));
  p.w = vc_range("last_tile_size", 1, lim(1L << 20, 4));
  p.q = one ? 0 : vc_range("rank_to_src", 0, lim(1L << 20, 3));
  p.src = one ? 0 : (int) vc_range("src_rank", 0, lim(1L << 20, 3));
  vc_assume((p.R < p.P) & (p.q < p.P) & (p.src < p.P) & (p.w <= p.nb));
  p.rank = (int) (p.src + p.q - (p.src + p.q >= p.P ? p.P : 0));
  p.nt = p.Q * p.P + p.R + 1;
  p.n = (p.nt - 1) * p.nb + p.w;
  vc_assume(p.n <= 1L << 40);
  if (!one) {
    vc_split(p.q < p.R);
    vc_split(p.q == p.R);
  }
  if (p.q < p.R) p.lnt = p.Q + 1, p.lsz = (p.Q + 1) * p.nb;
  else if (p.q == p.R) p.lnt = p.Q + 1, p.lsz = p.Q * p.nb + p.w;
  else p.lnt = p.Q, p.lsz = p.Q * p.nb;
  return p;
}
template <Coord C> GlobalTileIndex gt(long i) { return GlobalTileIndex(C, i); }
template <Coord C> LocalTileIndex lt(long i) { return LocalTileIndex(C, i); }
template <Coord C, StoreTransposed S> using PanelOf = Panel<orthogonal(C), T, Device::CPU, S>;

// the number of local tiles before a tile (C02): the tiles of this rank are l*P + q
static struct { long P, q; int coord; long nt, lnt, lsz; int rank, src; } mat;
static long before(long t) {
  if (mat.P == 1)
    return t;
  const long l = vc_map_get(100, t, 0, 0);
  vc_assume((l >= 0) & (l <= 1L << 41) & (l * mat.P + mat.q >= t) & ((l == 0) | ((l - 1) * mat.P + mat.q < t)));
  return l;
}
template <Coord C> static long c_before(const Distribution* d, long t) {
  if (d->grid_size().get<C>() == 1)  // one rank: the other dimension, or the local matrix
    return t;
  vc_requires((d->grid_size().get<C>() == mat.P) & (d->rank_index().get<C>() == mat.rank) & (d->source_rank_index().get<C>() == mat.src), "the distribution of the panel");
  fold<C>(d->nr_tiles(), mat.nt, "?number of tiles");
  fold<C>(d->local_nr_tiles(), mat.lnt, "?number of local tiles");
  fold<C>(d->local_size(), mat.lsz, "?local size");
  return before(t);
}
VC_CONTRACT("next_row", "long dlaf::matrix::Distribution::next_local_tile_from_global_tile<(dlaf::Coord)0>(long) const", &c_before<Coord::Row>)
VC_CONTRACT("next_col", "long dlaf::matrix::Distribution::next_local_tile_from_global_tile<(dlaf::Coord)1>(long) const", &c_before<Coord::Col>)
// the tile with an element, the position in it and the owner of a tile (C02)
static struct { long o, g, f, nb; } el;
template <Coord C> static bool several(const Distribution* d) {
  if (d->grid_size().get<C>() == 1)
    return false;
  vc_requires((d->grid_size().get<C>() == mat.P) & (d->rank_index().get<C>() == mat.rank) & (d->source_rank_index().get<C>() == mat.src), "the distribution of the panel");
  return true;
}
template <Coord C> static long c_tile_of(const Distribution* d, long o) {
  if (!several<C>(d))
    return (o + d->offset().get<C>()) / d->tile_size().get<C>();
  vc_requires((o == el.o) & (d->tile_size().get<C>() == el.nb), "the first element of the panel");
  return el.g;
}
template <Coord C> static long c_in_tile(const Distribution* d, long o) {
  if (!several<C>(d)) {
    vc_requires(d->offset().get<C>() == 0, "no offset");
    return o % d->tile_size().get<C>();
  }
  vc_requires((o == el.o) & (d->tile_size().get<C>() == el.nb), "the first element of the panel");
  return el.f;
}
template <Coord C> static int c_owner(const Distribution* d, long t) {
  if (!several<C>(d))
    return 0;
  const int r = (int) vc_map_get(101, t, 0, 0);
  vc_assume((0 <= r) & (r < mat.P) & ((r == mat.rank) == (before(t) * mat.P + mat.q == t)));
  return r;
}
VC_CONTRACT("tile_of0", "long dlaf::matrix::Distribution::global_tile_from_global_element<(dlaf::Coord)0>(long) const", &c_tile_of<Coord::Row>)
VC_CONTRACT("in_tile0", "long dlaf::matrix::Distribution::tile_element_from_global_element<(dlaf::Coord)0>(long) const", &c_in_tile<Coord::Row>)
VC_CONTRACT("owner0", "int dlaf::matrix::Distribution::rank_global_tile<(dlaf::Coord)0>(long) const", &c_owner<Coord::Row>)
VC_CONTRACT("tile_of1", "long dlaf::matrix::Distribution::global_tile_from_global_element<(dlaf::Coord)1>(long) const", &c_tile_of<Coord::Col>)
VC_CONTRACT("in_tile1", "long dlaf::matrix::Distribution::tile_element_from_global_element<(dlaf::Coord)1>(long) const", &c_in_tile<Coord::Col>)
VC_CONTRACT("owner1", "int dlaf::matrix::Distribution::rank_global_tile<(dlaf::Coord)1>(long) const", &c_owner<Coord::Col>)
template <Coord C, StoreTransposed S> Distribution whole(const Dist& p) {
  vc_map_get(100, 0, 0, 0);
  vc_map_get(101, 0, 0, 0);
  mat = {p.P, p.q, C == Coord::Row ? 0 : 1, p.nt, p.lnt, p.lsz, p.rank, p.src};
  vc_mark();
  vc_split(p.R + 1 < p.P);
  Distribution d = C == Coord::Row
                       ? Distribution(GlobalElementSize(p.n, 5), TileElementSize(p.nb, 2), comm::Size2D(p.P, 1), comm::Index2D(p.rank, 0), comm::Index2D(p.src, 0))
                       : Distribution(GlobalElementSize(5, p.n), TileElementSize(2, p.nb), comm::Size2D(1, p.P), comm::Index2D(0, p.rank), comm::Index2D(0, p.src));
  fold<C>(d.nr_tiles(), p.nt, "number of tiles");
  fold<C>(d.source_rank_index(), p.src, "source rank");
  fold<C>(d.local_nr_tiles(), p.lnt, "number of local tiles");
  fold<C>(d.local_size(), p.lsz, "local size");
  vc_merge();
  mat.coord = (C == Coord::Row) == (S == No) ? 0 : 1;
  return d;
}

// a tile (or the end); the number of local tiles before it
struct Pos { long g, l; };
static Pos any_tile(const char* n, const Dist& p) {
  Pos t;
  t.g = vc_range(n, 0, lim(1L << 40, 3));
  vc_assume(t.g <= p.nt);
  t.l = before(t.g);
  return t;
}
// the tile l of a panel
template <Coord C, StoreTransposed S, class P> static void check_tile(P& panel, long l, const TileElementSize& size, bool write) {
  g = {-1, nullptr, nullptr, 0, 0, nullptr};
  const auto check = [&](const Tile<const T, Device::CPU>& t) {
    vc_assert(t.size() == (S == No ? size : common::transposed(size)), "size of a tile of a panel");
    vc_assert((t.ptr() == g.memory), "from the first element of a tile of the local matrix");
  };
  if (write)
    check(tt::sync_wait(panel.readwrite(lt<C>(l))));
  else
    check(tt::sync_wait(panel.read(lt<C>(l))).get());
  vc_assert((g.reads == !write) & (g.writes == write), "one access");
}
template <Coord C> static TileElementSize tile_size(long n, long w) { return C == Coord::Row ? TileElementSize(n, w) : TileElementSize(w, n); }

// all tiles of a panel made for the tiles from c, with the range [s, e)
template <Coord C, StoreTransposed S, bool one> static void tiles() {
  if (!vc_verifying()) return;
  const Dist p = any_dist(one);
  const Distribution d = whole<C, S>(p);
  x = {0, new RO()};
  const Pos c = any_tile("made_for", p), s = any_tile("start", p), e = any_tile("end", p);
  vc_assume((c.g <= s.g) & (s.g <= e.g));
  closed = {(C == Coord::Row) == (S == No), p.lnt - c.l, c.l == p.lnt ? 0 : p.lsz - c.l * p.nb};
  vc_join("next_local_tile|computePanelSize|tile_size_of");
  vc_lemma(before(p.nt) == p.lnt);
  vc_lemma((c.l <= p.lnt));
  vc_lemma((c.l == p.lnt) | (p.lsz > c.l * p.nb));
  vc_split(c.l == p.lnt);
  vc_mark();
  PanelOf<C, S> panel(d, gt<C>(c.g));
  vc_merge();
  vc_assert((panel.rangeStart() == c.g) & (panel.rangeEnd() == p.nt), "a new panel has all tiles from the one it was made for");
  panel.setRange(gt<C>(s.g), gt<C>(e.g));
  vc_assert((panel.rangeStart() == s.g) & (panel.rangeEnd() == e.g), "range");
  vc_assert((panel.rangeStartLocal() == s.l) & (panel.rangeEndLocal() == e.l), "local range");
  const long l = vc_range("tile", 0, lim(1L << 40, 3));
  vc_lemma((l < s.l) | (l * p.P + p.q >= s.g));
  vc_lemma((l >= s.l) | (l * p.P + p.q < s.g));
  vc_lemma((l < e.l) | (l * p.P + p.q >= e.g));
  vc_lemma((l >= e.l) | (l * p.P + p.q < e.g));
  vc_assert(((s.l <= l) & (l < e.l)) == ((s.g <= l * p.P + p.q) & (l * p.P + p.q < e.g)), "a tile is in the local range exactly if it is in the range");
  vc_assume((s.l <= l) & (l < e.l));
  vc_lemma((c.l <= l) & (l < p.lnt));
  vc_lemma((l * p.P + p.q != p.nt - 1) | ((l == p.Q) & (p.q == p.R)));
  vc_lemma((l * p.P + p.q == p.nt - 1) | (l < p.Q) | (p.q < p.R));
  vc_split(l * p.P + p.q == p.nt - 1);
  vc_lemma((l + 1 == p.lnt) | ((l + 1 - c.l) * p.nb <= (p.lnt - 1 - c.l) * p.nb));
  vc_cover("some tiles");
  const long ext = l * p.P + p.q == p.nt - 1 ? p.w : p.nb;
  check_tile<C, S>(panel, l, tile_size<C>(ext, 2), false);
}
// a panel for the tiles from the one with element o, of which the first has only the elements from o
template <Coord C, StoreTransposed S, bool one, bool again> static void part() {
  if (!vc_verifying()) return;
  const Dist p = any_dist(one);
  const Distribution d = whole<C, S>(p);
  x = {0, new RO()};
  const Pos s = any_tile("start", p), e = any_tile("end", p);
  const long f = vc_range("in_tile", 0, lim(1L << 20, 3)), o = s.g * p.nb + f;
  vc_assume((f < p.nb) & (o < p.n) & (s.g < e.g));
  el = {o, s.g, f, p.nb};
  closed = {(C == Coord::Row) == (S == No), p.lnt, p.lsz};
  vc_join("next_local_tile|computePanelSize|tile_size_of");
  vc_lemma(before(0) == 0);
  vc_lemma(before(p.nt) == p.lnt);
  vc_lemma(p.lnt >= 0);
  vc_lemma((p.lnt == 0) | (p.lsz > 0));
  vc_split(p.lnt == 0);
  vc_mark();
  PanelOf<C, S> panel(d);
  vc_merge();
  panel.setRangeStart(C == Coord::Row ? GlobalElementIndex(o, 0) : GlobalElementIndex(0, o));
  panel.setRangeEnd(gt<C>(e.g));
  vc_assert(panel.offsetElement() == o, "first element of a panel");
  vc_assert((panel.rangeStart() == s.g) & (panel.rangeEnd() == e.g), "range");
  vc_assert((panel.rangeStartLocal() == s.l) & (panel.rangeEndLocal() == e.l), "local range");
  if constexpr (C == Coord::Row) {
    vc_assert(panel.getWidth() == 2, "a panel is as wide as a tile");
    panel.setWidth(1);
    vc_assert(panel.getWidth() == 1, "width");
  }
  else {
    vc_assert(panel.getHeight() == 2, "a panel is as high as a tile");
    panel.setHeight(1);
    vc_assert(panel.getHeight() == 1, "height");
  }
  if (again) {
    panel.reset();
    panel.setRange(gt<C>(s.g), gt<C>(e.g));
    vc_assert(panel.offsetElement() == s.g * p.nb, "first element of a panel");
  }
  const long l = vc_range("tile", 0, lim(1L << 40, 3));
  vc_assume((s.l <= l) & (l < e.l));
  vc_lemma(l * p.P + p.q >= s.g);
  vc_lemma(l * p.P + p.q < e.g);
  vc_lemma(l < p.lnt);
  vc_lemma((l * p.P + p.q != p.nt - 1) | ((l == p.Q) & (p.q == p.R)));
  vc_lemma((l * p.P + p.q == p.nt - 1) | (l < p.Q) | (p.q < p.R));
  vc_split(l * p.P + p.q == p.nt - 1);
  vc_split(l * p.P + p.q == s.g);
  vc_lemma((l * p.P + p.q == s.g) | (l > s.l) | (s.l * p.P + p.q > s.g));
  vc_lemma((l * p.P + p.q != s.g) | (l == s.l));
  vc_lemma((l + 1 == p.lnt) | ((l + 1) * p.nb <= (p.lnt - 1) * p.nb));
  vc_cover("some tiles");
  const long ext = (l * p.P + p.q == p.nt - 1 ? p.w : p.nb) - (!again && l * p.P + p.q == s.g ? f : 0);
  vc_lemma(ext > 0);
  check_tile<C, S>(panel, l, tile_size<C>(ext, again ? 2 : 1), true);
}
template <Coord C, StoreTransposed S, bool one> static void from_element() { part<C, S, one, false>(); }
template <Coord C, StoreTransposed S, bool one> static void ranges_again() { part<C, S, one, true>(); }

// on several ranks, on one
#define PANELS(name) \
  VC_PROOF(name##_col, "") { name<Coord::Row, No, false>(); } \
  VC_PROOF(name##_row, "") { name<Coord::Col, No, false>(); } \
  VC_PROOF(name##_col_one_rank, "") { name<Coord::Row, No, true>(); } \
  VC_PROOF(name##_row_one_rank, "") { name<Coord::Col, No, true>(); }
#define PANELS_T(name) \
  VC_PROOF(name##_col_transposed, "") { name<Coord::Row, Yes, false>(); } \
  VC_PROOF(name##_row_transposed, "") { name<Coord::Col, Yes, false>(); } \
  VC_PROOF(name##_col_transposed_one_rank, "") { name<Coord::Row, Yes, true>(); } \
  VC_PROOF(name##_row_transposed_one_rank, "") { name<Coord::Col, Yes, true>(); }
PANELS(tiles)
PANELS_T(tiles)
PANELS(from_element)
PANELS_T(from_element)
PANELS(ranges_again)
