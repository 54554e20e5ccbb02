//@property: C12
//@stubs: 1
//@assume: element types of 8 and 16 bytes; local sizes below 2^24 elements per dimension, leading dimensions below 2^25
//@trusted: std::vector of tile pipelines replaced by its contract (emplace_back appends, reserve has no effect) while the loops that create the tiles are verified; the pipelines themselves are verified in C13 and C14
// Where the tiles of a matrix are stored.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/matrix.h>
using namespace dlaf::matrix;
using T = double;

static const long K = 1L << 24;
// one dimension of the part of a matrix that a process owns: lnt tiles of nb elements, the last with w elements
struct Loc { long nb, lnt, w, sz; };
static Loc any_loc(const char* n1, const char* n2, const char* n3) {
  Loc l{vc_range(n1, 1, lim(K, 4)), vc_range(n2, 0, lim(K, 4)), vc_range(n3, 1, lim(K, 4)), 0};
  l.sz = l.lnt > 0 ? (l.lnt - 1) * l.nb + l.w : 0;
  vc_assume((l.w <= l.nb) & (l.sz <= K));
  return l;
}
static long len(const Loc& l, long i) { return i + 1 < l.lnt ? l.nb : l.w; }

// contract of Distribution::local_tile_size_of for distributions without offset (its proof is below)
template <Coord C> static long c_tile_size(const Distribution* d, long i) {
  const long lnt = d->local_nr_tiles().get<C>(), lsz = d->local_size().get<C>(), nb = d->tile_size().get<C>();
  vc_requires((0 <= i) & (i < lnt), "a local tile");
  const long r = vc_any_i64("tile size");
  vc_ensures(r == (i + 1 < lnt ? nb : lsz - (lnt - 1) * nb), "full tiles except the last");
  return r;
}
VC_CONTRACT("row_size", "long dlaf::matrix::Distribution::local_tile_size_of<(dlaf::Coord)0>(*", &c_tile_size<Coord::Row>)
VC_CONTRACT("col_size", "long dlaf::matrix::Distribution::local_tile_size_of<(dlaf::Coord)1>(*", &c_tile_size<Coord::Col>)

template <Coord C> static void tile_size_contract() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  vc_assume((p.to == 0) & (p.eo == 0));
  const long y = vc_range("round", 0, lim(1L << 40, 3)), t = vc_range("tile", 0, lim(1L << 20, 2)), l = y * p.k + t;
  vc_assume((t < p.k) & (l < p.lnt));
  vc_split(p.q < p.R);
  vc_split(p.q == p.R);
  vc_lemma((y < p.Q) | ((y == p.Q) & (p.q <= p.R)));
  lex(p, y, p.q, t);
  vc_cover("any");
  const bool last = (y == p.Q) & (p.q == p.R) & (t == p.T);
  vc_lemma(last == ((y * p.P + p.q) * p.k + t == (p.Q * p.P + p.R) * p.k + p.T));
  const long s = d.local_tile_size_of<C>(l);
  vc_assert(s == (last ? p.w : p.nb), "size of a local tile");
  vc_lemma(l + 1 <= p.lnt);
  vc_assert((l + 1 < p.lnt) | (s == p.lsz - l * p.nb), "the last one has the rest");
  vc_assert((l + 1 == p.lnt) | (s == p.nb), "the others are full");
}
VC_PROOF(row_size, "row_size") { tile_size_contract<Coord::Row>(); }
VC_PROOF(col_size, "col_size") { tile_size_contract<Coord::Col>(); }

// the part of a matrix owned by a process: local extents given, everything global (size, number of tiles) is arbitrary
static Distribution local(const Loc& r, const Loc& c) {
  const long x = vc_any_i64("size_rows"), y = vc_any_i64("size_cols"), z = vc_any_i64("nr_tiles_rows"), t = vc_any_i64("nr_tiles_cols");
  vc_mark();
  Distribution d(LocalElementSize(r.sz, c.sz), TileElementSize(r.nb, c.nb));
  fold<Coord::Row>(d.local_nr_tiles(), r.lnt, "number of local tile rows");
  fold<Coord::Col>(d.local_nr_tiles(), c.lnt, "number of local tile columns");
  forget<Coord::Row>(d.size(), x);
  forget<Coord::Col>(d.size(), y);
  forget<Coord::Row>(d.nr_tiles(), z);
  forget<Coord::Col>(d.nr_tiles(), t);
  vc_merge();
  return d;
}
static Loc any_rows() { return any_loc("tile_rows", "local_tile_rows", "last_tile_rows"); }
static Loc any_cols() { return any_loc("tile_cols", "local_tile_cols", "last_tile_cols"); }
static long any_ld() { return vc_range("ld", 1, lim(2 * K, 20)); }
static long pick(const char* n, long count) {
  const long i = vc_range(n, 0, lim(K, 5));
  vc_assume(i < count);
  return i;
}

VC_PROOF(col_major, "") {
  const Loc r = any_rows(), c = any_cols();
  const long ld = any_ld();
  vc_assume((r.lnt > 0) & (c.lnt > 0) & (r.sz <= ld));
  Distribution d = local(r, c);
  const ColMajorLayout l(d, ld);
  const long i = pick("tile_row", r.lnt), j = pick("tile_col", c.lnt), e = pick("row", len(r, i)), f = pick("col", len(c, j));
  const long i2 = pick("other_tile_row", r.lnt), j2 = pick("other_tile_col", c.lnt), e2 = pick("other_row", len(r, i2)), f2 = pick("other_col", len(c, j2));
  vc_cover("any");
  const LocalTileIndex ij(i, j);
  vc_assert(l.size() == LocalElementSize(r.sz, c.sz), "size");
  vc_assert((l.nr_tiles() == LocalTileSize(r.lnt, c.lnt)) & (l.tile_size() == TileElementSize(r.nb, c.nb)), "tiles");
  vc_assert(l.tile_size_of(ij) == TileElementSize(len(r, i), len(c, j)), "size of a tile");
  vc_assert(l.ld_tile(ij) == ld, "leading dimension");
  const long gi = i * r.nb + e, gj = j * c.nb + f;
  vc_lemma((i + 1) * r.nb <= r.lnt * r.nb);
  vc_lemma((j + 1) * c.nb <= c.lnt * c.nb);
  vc_lemma(gi < r.sz);
  vc_lemma(gj < c.sz);
  const long off = l.tile_offset(ij), a = off + e + ld * f;
  vc_assert(a == gi + ld * gj, "column major order of the local matrix");
  vc_lemma(ld * gj <= ld * (c.sz - 1));
  vc_assert((0 <= a) & (a < l.min_mem_size()), "inside the memory asked for");
  vc_assert(l.min_mem_size() == r.sz + ld * (c.sz - 1), "no more than needed");
  vc_lemma(ld * f <= ld * (len(c, j) - 1));
  vc_assert((off <= a) & (a < off + l.min_tile_mem_size(ij)), "inside the memory of its tile");
  vc_assert(l.min_tile_mem_size(ij) == len(r, i) + ld * (len(c, j) - 1), "no more than needed");
}
VC_PROOF(col_major_distinct, "") {
  const Loc r = any_rows(), c = any_cols();
  const long ld = any_ld();
  vc_assume((r.lnt > 0) & (c.lnt > 0) & (r.sz <= ld));
  Distribution d = local(r, c);
  const ColMajorLayout l(d, ld);
  const long i = pick("tile_row", r.lnt), j = pick("tile_col", c.lnt), e = pick("row", len(r, i)), f = pick("col", len(c, j));
  const long i2 = pick("other_tile_row", r.lnt), j2 = pick("other_tile_col", c.lnt), e2 = pick("other_row", len(r, i2)), f2 = pick("other_col", len(c, j2));
  vc_cover("any");
  const long gi = i * r.nb + e, gj = j * c.nb + f, gi2 = i2 * r.nb + e2, gj2 = j2 * c.nb + f2;
  const long a = l.tile_offset(LocalTileIndex(i, j)) + e + l.ld_tile(LocalTileIndex(i, j)) * f;
  const long b = l.tile_offset(LocalTileIndex(i2, j2)) + e2 + l.ld_tile(LocalTileIndex(i2, j2)) * f2;
  vc_lemma((i + 1) * r.nb <= r.lnt * r.nb);
  vc_lemma((i2 + 1) * r.nb <= r.lnt * r.nb);
  vc_lemma((gi < r.sz) & (gi2 < r.sz));
  vc_lemma(a == gi + ld * gj);
  vc_lemma(b == gi2 + ld * gj2);
  vc_lemma((a != b) | ((gi == gi2) & (gj == gj2)));
  vc_lemma((gi != gi2) | (i == i2));
  vc_lemma((gj != gj2) | (j == j2));
  vc_assert((a != b) | ((i == i2) & (j == j2) & (e == e2) & (f == f2)), "different elements are stored in different places");
}

VC_PROOF(col_major_empty, "") {
  const Loc r = any_rows(), c = any_cols();
  const long ld = any_ld();
  vc_assume((r.lnt == 0) | (c.lnt == 0));
  Distribution d = local(r, c);
  const ColMajorLayout l(d, ld);
  vc_cover("any");
  vc_assert(l.min_mem_size() == 0, "no memory needed");
  vc_assert((l.size() == LocalElementSize(r.sz, c.sz)) & (l.nr_tiles() == LocalTileSize(r.lnt, c.lnt)), "size");
}
VC_PROOF(col_major_rejects, "") {
  const Loc r = any_rows(), c = any_cols();
  const long ld = vc_range("ld", -lim(2 * K, 20), lim(2 * K, 20));
  const bool bad = (ld < 1) | ((r.lnt > 0) & (c.lnt > 0) & (ld < r.sz));
  Distribution d = local(r, c);
  vc_cover("any");
  if (bad)
    vc_allow_abort(true);
  const ColMajorLayout l(d, ld);
  vc_allow_abort(false);
  vc_assert(!bad, "leading dimensions that make columns overlap are rejected");
}
VC_PROOF(col_major_rejects_offset, "") {
  const long nb = vc_range("tile_size", 1, lim(K, 4)), mb = vc_range("tile_size_2", 1, lim(K, 4)), oi = vc_range("row_offset", 0, lim(K, 4)), oj = vc_range("col_offset", 0, lim(K, 4));
  vc_assume((oi < nb) & (oj < mb) & ((oi > 0) | (oj > 0)));
  const Distribution d(LocalElementSize(nb - oi, mb), TileElementSize(nb, mb), GlobalElementIndex(oi, oj));
  vc_cover("any");
  vc_allow_abort(true);
  const ColMajorLayout l(d, nb);
  vc_allow_abort(false);
  vc_assert(false, "rejected");
}


// contract of the container of the tiles: elements are appended one by one
// ghost: the tile that comes next, in column major order, and how tiles have to be stored
static struct {
  Loc r, c;
  long i, j;         // the next tile
  bool own;          // each tile in a region of its own, else column major
  const char* user;  // memory of the user, otherwise it is allocated
  long ld, padded;   // leading dimension, or 0 for the smallest one or (padded) the next multiple of this one
} g;
// the size of the region a matrix column major needs, or a tile
static long mem(long rows, long cols, long ld) { return rows + ld * (cols - 1); }
template <class T> static void check_tile(const TileElementSize& size, const T* ptr, long ld, long i, long j) {
  vc_assert((0 <= i) & (i < g.r.lnt) & (0 <= j) & (j < g.c.lnt), "no more tiles than there are");
  const long m = len(g.r, i), n = len(g.c, j);
  vc_assert(size == TileElementSize(m, n), "size of the tile");
  const long rows = g.own ? m : g.r.sz;
  if (g.ld > 0)
    vc_assert(ld == g.ld, "leading dimension as asked for");
  else
    vc_assert((ld >= rows) & ((ld == rows) | ((g.padded > 1) & (ld % g.padded == 0) & (ld - rows < g.padded))), "leading dimension");
  const T* base = (const T*) (g.user ? g.user : umpire::Allocator::last);
  const bool fresh = !g.user && vc_verifying();
  if (g.own) {
    if (fresh) {
      vc_assert(vc_same(ptr, base), "place of the tile");
      vc_assert(umpire::Allocator::last_size >= mem(m, n, ld) * sizeof(T), "enough memory for the tile");
    }
  }
  else if (fresh || g.user) {
    vc_lemma(i * g.r.nb + ld * (j * g.c.nb) >= 0);
    vc_assert(vc_same(ptr, base + (i * g.r.nb + ld * (j * g.c.nb))), "place of the tile in the matrix");
    if (fresh)
      vc_assert(umpire::Allocator::last_size >= mem(g.r.sz, g.c.sz, ld) * sizeof(T), "enough memory for the matrix");
  }
  vc_assert(vc_alive(ptr), "memory in use");
}
template <class T> struct Vec {
  using Data = matrix::internal::TileData<T, Device::CPU>;
  using Pipe = matrix::internal::TilePipeline<T, Device::CPU>;
  static Pipe& emplace(std::vector<Pipe>* v, Data&& data) {
    const Tile<T, Device::CPU> t(std::move(data));
    const long i = g.i, j = g.j;
    check_tile<T>(t.size(), t.ptr(), t.ld(), i, j);
    g.i = i + 1 == g.r.lnt ? 0 : i + 1;
    g.j = i + 1 == g.r.lnt ? j + 1 : j;
    return *(Pipe*) v;  // not used by the callers
  }
  static void reserve(std::vector<Pipe>*, unsigned long n) {
    vc_requires(n <= 1UL << 48, "number of tiles");
  }
};
#define VEC(T, name) "std::vector<dlaf::matrix::internal::TilePipeline<" T ", (dlaf::Device)0>, std::allocator<dlaf::matrix::internal::TilePipeline<" T ", (dlaf::Device)0>>>::" name
VC_CONTRACT("emplace_d", "dlaf::matrix::internal::TilePipeline<double, (dlaf::Device)0>& " VEC("double", "emplace_back<dlaf::matrix::internal::TileData<double, (dlaf::Device)0>>(*"), &Vec<double>::emplace)
VC_CONTRACT("reserve_d", VEC("double", "reserve(unsigned long)"), &Vec<double>::reserve)
VC_CONTRACT("emplace_z", "dlaf::matrix::internal::TilePipeline<std::complex<double>, (dlaf::Device)0>& " VEC("std::complex<double>", "emplace_back<dlaf::matrix::internal::TileData<std::complex<double>, (dlaf::Device)0>>(*"), &Vec<std::complex<double>>::emplace)
VC_CONTRACT("reserve_z", VEC("std::complex<double>", "reserve(unsigned long)"), &Vec<std::complex<double>>::reserve)

static bool inv_columns(long k) { return (g.i == 0) & (g.j == vc_entry(&g.j, 8) + k); }
static bool inv_rows(long k) {
  const bool done = k >= g.r.lnt;
  return (g.i == (done ? 0 : k)) & (g.j == vc_entry(&g.j, 8) + (done ? 1 : 0)) & (k <= g.r.lnt);
}

namespace tt = pika::this_thread::experimental;
// natively: look at the tiles
template <class M> static void look(M& m) {
  using T = typename std::remove_const<typename M::ElementType>::type;
  if (vc_verifying()) {
    vc_assert((g.i == 0) & (g.j == g.c.lnt), "all tiles are there");
    return;
  }
  for (long j = 0; j < g.c.lnt; ++j)
    for (long i = 0; i < g.r.lnt; ++i) {
      auto t = tt::sync_wait(m.read(LocalTileIndex(i, j)));
      check_tile<T>(t.get().size(), t.get().ptr(), t.get().ld(), i, j);
    }
}
static void loops() {
  vc_join("Tile<|TileData<|_tile_element");
  vc_loop_try("", inv_columns);
  vc_loop_try("", inv_rows);
}
template <class T> static void preallocated() {
  const Loc r = any_rows(), c = any_cols();
  const long ld = any_ld();
  vc_assume((r.lnt > 0) & (c.lnt > 0) & (r.sz <= ld));
  Distribution d = local(r, c);
  const ColMajorLayout l(d, ld);
  const long before = vc_range("elements_before", 0, lim(1L << 40, 3)), mem = r.sz + ld * (c.sz - 1);
  T* all = (T*) vc_alloc((before + mem) * sizeof(T), "matrix");
  g = {r, c, 0, 0, false, (const char*) (all + before), ld, 1};
  vc_cover("any");
  loops();
  Matrix<T, Device::CPU> m(l, all + before);
  look(m);
  vc_assert(m.allocation_layout() == AllocationLayout::ColMajor, "layout");
  vc_assert(m.distribution() == d, "distribution");
}
VC_PROOF(preallocated_double, "") { preallocated<double>(); }
VC_PROOF(preallocated_complex, "") { preallocated<std::complex<double>>(); }

// matrices that allocate
template <class T> static void allocated(AllocationLayout how, int kind) {
  const Loc r = any_rows(), c = any_cols();
  const long ld = kind == 2 ? any_ld() : 0;
  vc_assume((r.lnt > 0) & (c.lnt > 0));
  const bool own = how == AllocationLayout::Tiles;
  vc_assume((kind != 2) | (ld >= (own ? r.nb : r.sz)));
  Distribution d = local(r, c);
  g = {r, c, 0, 0, own, nullptr, ld, kind == 1 ? 64 / (long) sizeof(T) : 1};
  vc_cover("any");
  loops();
  const LdSpec spec = kind == 0 ? LdSpec(Ld::Compact) : kind == 1 ? LdSpec(Ld::Padded) : LdSpec(ld);
  Matrix<T, Device::CPU> m(d, AllocationSpec(how, spec));
  look(m);
  vc_assert(m.allocation_layout() == how, "layout");
  vc_assert(m.distribution() == d, "distribution");
}
VC_PROOF(col_major_compact, "") { allocated<T>(AllocationLayout::ColMajor, 0); }
VC_PROOF(col_major_padded, "") { allocated<T>(AllocationLayout::ColMajor, 1); }
VC_PROOF(col_major_ld, "") { allocated<T>(AllocationLayout::ColMajor, 2); }
VC_PROOF(tiles_compact, "") { allocated<T>(AllocationLayout::Tiles, 0); }
VC_PROOF(tiles_padded, "") { allocated<T>(AllocationLayout::Tiles, 1); }
VC_PROOF(tiles_ld, "") { allocated<T>(AllocationLayout::Tiles, 2); }

template <class T> static void allocated_rejects(AllocationLayout how) {
  const Loc r = any_rows(), c = any_cols();
  const long ld = vc_range("ld", -lim(2 * K, 20), lim(2 * K, 20));
  vc_assume((r.lnt > 0) & (c.lnt > 0) & (ld < (how == AllocationLayout::Tiles ? len(r, 0) : r.sz)));
  Distribution d = local(r, c);
  g = {r, c, 0, 0, how == AllocationLayout::Tiles, nullptr, ld, 1};
  vc_cover("any");
  loops();
  vc_allow_abort(true);
  Matrix<T, Device::CPU> m(d, AllocationSpec(how, LdSpec(ld)));
  vc_allow_abort(false);
  vc_assert(false, "leading dimensions that make columns overlap are rejected");
}
VC_PROOF(col_major_ld_rejects, "") { allocated_rejects<T>(AllocationLayout::ColMajor); }
VC_PROOF(tiles_ld_rejects, "") { allocated_rejects<T>(AllocationLayout::Tiles); }

template <class T> static void allocated_empty(AllocationLayout how) {
  const Loc r = any_rows(), c = any_cols();
  const long ld = vc_range("ld", -lim(2 * K, 20), lim(2 * K, 20));
  vc_assume((r.lnt == 0) | (c.lnt == 0));
  Distribution d = local(r, c);
  g = {r, c, 0, 0, false, nullptr, ld, 1};
  const long heap = vc_live_heap();
  vc_cover("any");
  loops();
  if (ld < 1)
    vc_allow_abort(true);
  Matrix<T, Device::CPU> m(d, AllocationSpec(how, LdSpec(ld)));
  vc_allow_abort(false);
  vc_assert(ld >= 1, "a leading dimension of zero is rejected");
  vc_assert((g.i == 0) & (g.j == 0) & (vc_live_heap() == heap), "no tiles, no memory");
}
VC_PROOF(col_major_none, "") { allocated_empty<T>(AllocationLayout::ColMajor); }
VC_PROOF(tiles_none, "") { allocated_empty<T>(AllocationLayout::Tiles); }
VC_PROOF(blocks_none, "") { allocated_empty<T>(AllocationLayout::Blocks); }

// what an allocation specification stands for
VC_PROOF(specification, "") {
  const long ld = vc_range("ld", 1, lim(K, 20));
  vc_cover("any");
  const int w = vc_any_bool("default_colmajor") ? 0 : vc_any_bool("default_blocks") ? 1 : 2;
  const AllocationLayout def = w == 0 ? AllocationLayout::ColMajor : w == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
  getTuneParameters().default_allocation_layout = def;
  for (const AllocationLayout l : {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles}) {
    const AllocationSpec a(l), b(l, ld), c(l, Ld::Compact), e(l, Ld::Padded);
    vc_assert((a.layout() == l) & (b.layout() == l) & (c.layout() == l) & (e.layout() == l), "the layout asked for");
    vc_assert(a.ld() == LdSpec(l == AllocationLayout::ColMajor ? Ld::Padded : Ld::Compact), "default leading dimension");
    vc_assert((b.ld() == LdSpec(ld)) & (c.ld() == LdSpec(Ld::Compact)) & (e.ld() == LdSpec(Ld::Padded)), "the leading dimension asked for");
  }
  const AllocationSpec d;
  vc_assert(d.layout() == def, "default layout");
  vc_assert(d.ld() == LdSpec(def == AllocationLayout::ColMajor ? Ld::Padded : Ld::Compact), "default leading dimension");
}

// matrices do not support offsets
template <Coord C> static void rejects_offset() {
  Par p = any_par();
  vc_assume(p.to * p.nb + p.eo > 0);
  Distribution d = make<C>(p);
  vc_cover("any");
  vc_allow_abort(true);
  Matrix<T, Device::CPU> m(std::move(d), AllocationSpec(AllocationLayout::Tiles));
  vc_allow_abort(false);
  vc_unreachable("a matrix over a distribution with an offset");
}
BOTH(rejects_offset)
