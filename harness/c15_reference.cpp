//@property: C15
//@stubs: 1
//@assume: sizes below 2^40, tile sizes, tiles per block and numbers of ranks below 2^20
//@trusted: Matrix::read and Matrix::readwrite of a global tile give access to that tile (verified in C12 and C14)
// Which elements the tiles of a reference to a part of a matrix refer to.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <matrix/matrix_ref.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using T = double;
using M = Matrix<T, Device::CPU>;
using MC = Matrix<const T, Device::CPU>;
using Ref = matrix::internal::MatrixRef<T, Device::CPU>;
using RefC = matrix::internal::MatrixRef<const T, Device::CPU>;
using Pipe = matrix::internal::TilePipeline<T, Device::CPU>;

// a matrix over a distribution whose tiles are not set up
struct Bare {
  Distribution d;
  const Distribution& distribution() const { return d; }
  AllocationLayout allocation_layout() const { return AllocationLayout::ColMajor; }
  LocalTileSize nr_tiles() const { return {0, 0}; }
  SizeType min_mem_size() const { return 0; }
  TileElementSize tile_size_of(const LocalTileIndex&) const { return {0, 0}; }
  SizeType tile_offset(const LocalTileIndex&) const { return 0; }
  SizeType min_tile_mem_size(const LocalTileIndex&) const { return 0; }
  SizeType ld_tile(const LocalTileIndex&) const { return 1; }
};

// the one tile of the matrix that is asked for
static struct { long row, col; int reads, writes; Pipe* pipe; } g;
static void asked(const GlobalTileIndex& i) { vc_requires((i.row() == g.row) & (i.col() == g.col), "the tile of the matrix that has the elements"); }
static ReadOnlyTileSender<T, Device::CPU> c_read(MC*, const GlobalTileIndex& i) {
  asked(i);
  ++g.reads;
  return g.pipe->read();
}
static ReadWriteTileSender<T, Device::CPU> c_readwrite(M*, const GlobalTileIndex& i) {
  asked(i);
  ++g.writes;
  return g.pipe->readwrite();
}
VC_CONTRACT("read", "dlaf::matrix::Matrix<double const, (dlaf::Device)0>::read(dlaf::common::Index2D<long, dlaf::matrix::GlobalTile_TAG> const&)", &c_read)
VC_CONTRACT("readwrite", "dlaf::matrix::Matrix<double, (dlaf::Device)0>::readwrite(dlaf::common::Index2D<long, dlaf::matrix::GlobalTile_TAG> const&)", &c_readwrite)

template <Coord C> Distribution gdist(const Par& p) {
  const long x = vc_any_i64("local_tiles"), z = vc_any_i64("local_size");
  vc_mark();
  vc_split(p.T + 1 < p.k);
  if (p.T + 1 == p.k)
    vc_split(p.R + 1 < p.P);
  Distribution d = make<C>(p);
  fold<C>(d.nr_tiles(), p.nt, "number of tiles");
  fold<C>(d.source_rank_index(), p.src, "source rank");
  forget<C>(d.local_nr_tiles(), x);
  forget<C>(d.local_size(), z);
  vc_merge();
  return d;
}
template <Coord C> GlobalTileIndex gtx(long n, long o) { return C == Coord::Row ? GlobalTileIndex(n, o) : GlobalTileIndex(o, n); }


// the tile of the reference that has its element i: where it is in the memory of the tile of the matrix that has the element origin + i
// along the other dimension: 5 elements in tiles of 1, 2, 2; the reference has the last 3 of them, one in the tile 0 and two in the tile 1
template <Coord C, class X, class R, bool write> static void element() {
  if (!vc_verifying()) return;  // the contracts stand for the tiles of the matrix
  const long j = write ? 2 : 0, other_tile = write ? 2 : 1, other_pos = 1, sub_tile = write ? 1 : 0, sub_pos = write ? 1 : 0, sub_ext = write ? 2 : 1, other_start = write ? 0 : 1;
  (void) j;
  Par p = any_par();
  const Distribution d = gdist<C>(p);
  const long y = vc_range("origin_round", 0, lim(1L << 40, 3)), x = vc_range("origin_rank", 0, lim(1L << 20, 3)), t = vc_range("origin_tile", 0, lim(1L << 20, 2)), e = vc_range("origin_in_tile", 0, lim(1L << 20, 3));
  vc_assume((x < p.P) & (t < p.k) & (e < p.nb));
  const long B = y * p.P + x - p.src, o = (B * p.k + t - p.to) * p.nb + e - p.eo;
  const long G = vc_range("sub_last_tile", 0, lim(1L << 40, 8)), w = vc_range("sub_last_tile_size", 1, lim(1L << 20, 4)), s = (G - t) * p.nb + w - e;
  vc_assume((0 <= o) & (o <= p.n) & (0 < s) & (s <= p.n - o) & (w <= p.nb) & (t <= G) & (0 <= B) & (0 <= B * p.k + t - p.to));
  const matrix::internal::SubMatrixSpec spec{gix<C>(o, 2), C == Coord::Row ? GlobalElementSize(s, 3) : GlobalElementSize(3, s)};
  X m(Bare{d}, (T*) nullptr);
  const long lx = vc_any_i64("sub_local_tiles"), lz = vc_any_i64("sub_local_size");
  vc_mark();
  R r(m, spec);
  fold<C>(r.distribution().source_rank_index(), (int) x, "owner of the origin");
  fold<C>(r.distribution().nr_tiles(), G - t + 1, "number of tiles of the sub-matrix");
  forget<C>(r.distribution().local_nr_tiles(), lx);
  forget<C>(r.distribution().local_size(), lz);
  vc_merge();
  const long gb = vc_range("block", 0, lim(1L << 40, 3)), v = vc_range("tile", 0, lim(1L << 20, 2)), h = gb * p.k + v, f = vc_range("in_tile", 0, lim(1L << 20, 3));
  const long i = (h - t) * p.nb + f - e;
  vc_assume((v < p.k) & (f < p.nb) & (0 <= i) & (i < s));
  vc_lemma(h >= t);
  vc_lemma(h <= G);
  vc_split(h == t);
  vc_split(h == G);
  vc_lemma((h == t) | (B * p.k + h - p.to > 0));
  const long T0 = B * p.k + t - p.to, TH = B * p.k + h - p.to;
  vc_split(T0 == 0);
  vc_lemma((T0 == 0) | (o + p.eo >= p.nb));
  vc_lemma((T0 == 0) | (o + i + p.eo >= p.nb));
  vc_lemma((T0 != 0) | (o + p.eo < p.nb));
  vc_lemma((T0 != 0) | (h != t) | (o + i + p.eo < p.nb));
  vc_lemma((h == t) | (o + i + p.eo >= p.nb));
  vc_lemma(TH < p.nt);
  vc_lemma(T0 < p.nt);
  vc_split(TH + 1 < p.nt);
  const long first = TH == 0 ? 0 : TH * p.nb - p.eo;  // of the tile of the matrix
  const long n = (TH + 1 < p.nt ? (TH + 1) * p.nb - p.eo : p.n) - first;
  vc_lemma((1 <= n) & (n <= p.nb));
  vc_cover("any");
  const TileElementSize size = C == Coord::Row ? TileElementSize(n, other_tile == 0 ? 1 : 2) : TileElementSize(other_tile == 0 ? 1 : 2, n);
  const long ld = C == Coord::Row ? p.nb : 7;
  T* memory = (T*) vc_alloc((C == Coord::Row ? ld + n : 7 * (n - 1) + 2) * sizeof(T), "tile");
  Pipe pipe(Tile<T, Device::CPU>(size, memory::MemoryView<T, Device::CPU>(memory, C == Coord::Row ? ld + n : 7 * (n - 1) + 2), ld));
  g = {C == Coord::Row ? TH : other_tile, C == Coord::Row ? other_tile : TH, 0, 0, &pipe};
  const GlobalTileIndex at = gtx<C>(h - t, sub_tile);
  const auto check = [&](const Tile<const T, Device::CPU>& tile) {
    const long b = h == t ? e : 0, pos = f - b, ext = (h == G ? w : p.nb) - b;  // position of the element in it, extent
    vc_assert(tile.size() == (C == Coord::Row ? TileElementSize(ext, sub_ext) : TileElementSize(sub_ext, ext)), "size of a tile of the reference");
    vc_assert(tile.ld() == ld, "leading dimension");
    const long in_parent = o + i - first;
    const T* expected = memory + (C == Coord::Row ? in_parent + other_pos * ld : other_pos + 7 * in_parent);
    const T* found = tile.ptr() + (C == Coord::Row ? pos + sub_pos * ld : sub_pos + 7 * pos);
    vc_assert(found == expected, "element (i, j) of the reference is the element (i, j) from its origin");
  };
  (void) other_start;
  if constexpr (write) {
    check(tt::sync_wait(r.readwrite(at)));
    vc_assert((g.writes == 1) & (g.reads == 0), "one exclusive access to the tile");
  }
  else {
    check(tt::sync_wait(r.read(at)).get());
    vc_assert((g.reads == 1) & (g.writes == 0), "one access for reading to the tile");
  }
}
#define REFS(name) \
  VC_PROOF(name##_row_read, "") { element<Coord::Row, MC, RefC, false>(); } \
  VC_PROOF(name##_col_read, "") { element<Coord::Col, MC, RefC, false>(); } \
  VC_PROOF(name##_row_readwrite, "") { element<Coord::Row, M, Ref, true>(); } \
  VC_PROOF(name##_col_readwrite, "") { element<Coord::Col, M, Ref, true>(); }
REFS(element)
