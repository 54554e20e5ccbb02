//@property: C02
//@stubs: 1
//@ldflags: -lmpi
//@assume: sizes below 2^40 elements, tiles of at most 2^20 elements, at most 2^20 tiles per block and 2^20 ranks per dimension (2^40 blocks of offset)
// include/dlaf/matrix/distribution.h, src/matrix/distribution.cpp: every distribution is block cyclic.
#include "c02_common.h"

// global -> owner, local
template <Coord C> void global_to_local() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  Elem a = any_elem(p);
  vc_cover("any");
  vc_assert(d.global_tile_from_global_element<C>(a.i) == a.gt, "tile of an element");
  vc_assert((0 <= a.gt) & (a.gt < d.nr_tiles().get<C>()), "the tile of an element exists");
  const long te = d.tile_element_from_global_element<C>(a.i);
  vc_assert(te == a.e - (a.gt == 0 ? p.eo : 0), "position in the tile");
  vc_assert(d.global_element_from_global_tile_and_tile_element<C>(a.gt, te) == a.i, "element of a tile and a position");
  const int o = (int) (p.src + a.x - (p.src + a.x >= p.P ? p.P : 0));
  vc_assert(d.rank_global_element<C>(a.i) == o, "owner of an element: blocks are dealt round robin from the source rank, starting at the offset");
  vc_assert(d.rank_global_tile<C>(a.gt) == o, "owner of the tile");
  if (a.x == p.q) {
    vc_cover("mine");
    const long lt = a.y * p.k + a.t - (p.q == 0 ? p.to : 0), le = (a.y * p.k + a.t) * p.nb + a.e - (p.q == 0 ? p.shift() : 0);
    vc_assert((0 <= lt) & (lt < p.lnt) & (0 <= le) & (le < p.lsz), "an owned element is inside the local part");
    vc_assert(d.local_tile_from_global_tile<C>(a.gt) == lt, "local tile of an owned tile");
    vc_assert(d.local_element_from_global_element<C>(a.i) == le, "local index of an owned element");
    vc_assert(d.next_local_tile_from_global_element<C>(a.i) == lt, "the next local tile of an owned tile is itself");
  }
  else {
    vc_cover("other");
    vc_assert(d.local_tile_from_global_tile<C>(a.gt) == -1, "no local tile on another rank");
    vc_assert(d.local_element_from_global_element<C>(a.i) == -1, "no local element on another rank");
  }
}
BOTH(global_to_local)

// local -> global
template <Coord C> void local_to_global() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  const long y = vc_range("elem_round", 0, lim(1L << 40, 3)), t = vc_range("elem_tile", 0, lim(1L << 20, 2)), e = vc_range("elem_in_tile", 0, lim(1L << 20, 3));
  vc_assume((t < p.k) & (e < p.nb));
  vc_split(p.src + p.q >= p.P);
  vc_split(p.q == 0);
  const long lt = y * p.k + t - (p.q == 0 ? p.to : 0), le = (y * p.k + t) * p.nb + e - (p.q == 0 ? p.shift() : 0);
  vc_assume((0 <= lt) & (0 <= le) & (le < p.lsz));
  vc_cover("any");
  const long gt = (y * p.P + p.q) * p.k + t - p.to, i = gt * p.nb + e - p.eo;
  // mixed radix order
  vc_lemma(y * p.k + t <= p.Q * p.k + (p.q < p.R ? p.k - 1 : p.q == p.R ? p.T : -1));
  vc_lemma(y <= p.Q);
  vc_lemma((y < p.Q) | (p.q <= p.R));
  vc_lemma((y < p.Q) | (p.q < p.R) | (t <= p.T));
  vc_lemma((y < p.Q) | (p.q < p.R) | (t < p.T) | (e < p.w));
  vc_lemma(y * p.P + p.q <= p.Q * p.P + p.R);
  vc_lemma((y * p.P + p.q < p.Q * p.P + p.R) | (y == p.Q));
  vc_lemma((y * p.P + p.q < p.Q * p.P + p.R) | (t <= p.T));
  vc_lemma(gt < p.nt);
  vc_lemma((gt < p.nt - 1) | (e < p.w));
  vc_lemma(i < p.n);
  vc_assert((0 <= gt) & (gt < p.nt) & (0 <= i) & (i < p.n) & (lt < p.lnt), "a local element is an element");
  vc_assert(d.local_tile_from_local_element<C>(le) == lt, "local tile of a local element");
  const long te = d.tile_element_from_local_element<C>(le);
  vc_assert(te == e - (gt == 0 ? p.eo : 0), "position in the tile");
  vc_assert(d.local_element_from_local_tile_and_tile_element<C>(lt, te) == le, "local element of a tile and a position");
  vc_assert(d.global_tile_from_local_tile<C>(lt) == gt, "global tile of a local tile");
  vc_assert(d.global_element_from_local_element<C>(le) == i, "global element of a local element");
  vc_assert(d.global_element_from_local_tile_and_tile_element<C>(lt, te) == i, "global element of a local tile and a position");
}
BOTH(local_to_global)

// tiles: sizes add up, locally and globally
template <Coord C> void tiles() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  const long y = vc_range("tile_round", 0, lim(1L << 40, 3)), x = vc_range("tile_rank", 0, lim(1L << 20, 3)), t = vc_range("tile_in_block", 0, lim(1L << 20, 2));
  vc_assume((x < p.P) & (t < p.k));
  const long gt = (y * p.P + x) * p.k + t - p.to;
  vc_assume((0 <= gt) & (gt < p.nt));
  lex(p, y, x, t);
  vc_cover("any");
  const long sz = d.global_tile_size_of<C>(gt), first = d.global_element_from_global_tile_and_tile_element<C>(gt, 0);
  vc_assert((0 < sz) & (sz <= p.nb), "tiles are not empty");
  vc_assert(first == (gt == 0 ? 0 : gt * p.nb - p.eo), "first element of a tile");
  vc_assert(first + sz == (gt + 1 < p.nt ? (gt + 1) * p.nb - p.eo : p.n), "tiles cover the matrix without gaps");
  if (x == p.q) {
    vc_cover("mine");
    const long lt = y * p.k + t - (p.q == 0 ? p.to : 0);
    vc_assert((0 <= lt) & (lt < p.lnt), "an owned tile has a local index");
    vc_assert(d.local_tile_size_of<C>(lt) == sz, "the local tile has the size of the global one");
    const long lf = d.local_element_from_local_tile_and_tile_element<C>(lt, 0);
    vc_assert(lf == (lt == 0 ? 0 : lt * p.nb - (p.q == 0 ? p.eo : 0)), "first element of a local tile");
    vc_assert(lf + sz == (lt + 1 < p.lnt ? (lt + 1) * p.nb - (p.q == 0 ? p.eo : 0) : p.lsz), "local tiles are adjacent");
  }
}
BOTH(tiles)

// whole blocks of offset only rotate the source rank; every constructor gives the same distribution
template <Coord C> void offset_normal() {
  Free p = any_free(false);
  Distribution d = make<C>(p.n, p.nb, p.k, p.P, p.rank, p.src0, p.off);
  vc_cover("any");
  vc_assert(d.offset().get<C>() == p.to * p.nb + p.eo, "offset inside the first block");
  vc_assert(d.source_rank_index().get<C>() == p.src, "the source rank owns the block that contains the offset");
  vc_assert((d.size().get<C>() == p.n) & (d.tile_size().get<C>() == p.nb) & (d.block_size().get<C>() == p.k * p.nb) & (d.grid_size().get<C>() == p.P) & (d.rank_index().get<C>() == p.rank), "parameters kept");
  vc_assert(d == make<C>(p.n, p.nb, p.k, p.P, p.rank, p.src, p.to * p.nb + p.eo), "same as the distribution with normalised offset");
}
BOTH(offset_normal)

// offset given in tiles and elements, and blocks of one tile
template <Coord C> void constructors() {
  Free p = any_free(false);
  const long tiles = vc_range("tile_offset", 0, lim(1L << 20, 8)), el = p.off - tiles * p.nb;
  vc_cover("any");
  Distribution a = make<C>(p.n, p.nb, p.k, p.P, p.rank, p.src0, p.off);
  const GlobalTileIndex to = C == Coord::Row ? GlobalTileIndex(tiles, 1) : GlobalTileIndex(1, tiles);
  const TileElementSize ts = C == Coord::Row ? TileElementSize(p.nb, 2) : TileElementSize(2, p.nb);
  const comm::Size2D g = C == Coord::Row ? comm::Size2D(p.P, 1) : comm::Size2D(1, p.P);
  const comm::Index2D r = C == Coord::Row ? comm::Index2D(p.rank, 0) : comm::Index2D(0, p.rank), s = C == Coord::Row ? comm::Index2D(p.src0, 0) : comm::Index2D(0, p.src0);
  Distribution b(gsz<C>(p.n), C == Coord::Row ? GlobalElementSize(p.k * p.nb, 2) : GlobalElementSize(2, p.k * p.nb), ts, g, r, s, to, gix<C>(el, -1));
  vc_assert(a == b, "tile and element offsets add up");
}
BOTH(constructors)
template <Coord C> void constructors1() {
  Free p = any_free(false);
  vc_assume(p.k == 1);
  const long tiles = vc_range("tile_offset", 0, lim(1L << 20, 8)), el = vc_range("element_offset", 0, lim(1L << 40, 12));
  vc_cover("any");
  Distribution a = make<C>(p.n, p.nb, 1, p.P, p.rank, p.src, tiles * p.nb + el);
  const GlobalTileIndex to = C == Coord::Row ? GlobalTileIndex(tiles, 1) : GlobalTileIndex(1, tiles);
  const TileElementSize ts = C == Coord::Row ? TileElementSize(p.nb, 2) : TileElementSize(2, p.nb);
  const comm::Size2D g = C == Coord::Row ? comm::Size2D(p.P, 1) : comm::Size2D(1, p.P);
  const comm::Index2D r = C == Coord::Row ? comm::Index2D(p.rank, 0) : comm::Index2D(0, p.rank), s = C == Coord::Row ? comm::Index2D(p.src, 0) : comm::Index2D(0, p.src);
  vc_assert(a == Distribution(gsz<C>(p.n), ts, g, r, s, gix<C>(tiles * p.nb + el, 1)), "without block size: blocks of one tile");
  vc_assert(a == Distribution(gsz<C>(p.n), ts, g, r, s, to, gix<C>(el, -1)), "tile and element offsets add up");
}
BOTH(constructors1)

// a matrix on one process
template <Coord C> void local() {
  const long nb = vc_range("tile_size", 1, lim(1L << 20, 4)), to = vc_range("offset_tiles", 0, lim(1L << 20, 4)), eo = vc_range("offset_elements", 0, lim(1L << 20, 4)), NT = vc_range("tiles", 1, lim(1L << 20, 4)),
             w = vc_range("last_tile_size", 1, lim(1L << 20, 4));
  vc_assume((eo < nb) & (w <= nb) & ((NT > 1) | (w > eo)));
  const long n = (NT - 1) * nb + w - eo;
  vc_cover("any");
  Distribution d(C == Coord::Row ? LocalElementSize(n, 5) : LocalElementSize(5, n), C == Coord::Row ? TileElementSize(nb, 2) : TileElementSize(2, nb), gix<C>(to * nb + eo, 1));
  vc_assert((d.size() == gsz<C>(n)) & (d.local_size().get<C>() == n) & (d.nr_tiles().get<C>() == NT) & (d.local_nr_tiles().get<C>() == NT), "everything is local");
  vc_assert((d.grid_size() == comm::Size2D(1, 1)) & (d.rank_index() == comm::Index2D(0, 0)) & (d.source_rank_index() == comm::Index2D(0, 0)), "one process");
  vc_assert((d.offset().get<C>() == eo) & d.single_tile_per_block(), "offset in the first tile");
  vc_assert(d == make<C>(n, nb, 1, 1, 0, 0, eo), "same as the distributed constructor on one rank");
}
BOTH(local)

template <Coord C> void empty() {
  Free p = any_free(true);
  Distribution d = make<C>(0, p.nb, p.k, p.P, p.rank, p.src0, p.off);
  vc_cover("any");
  vc_assert((d.size().get<C>() == 0) & (d.nr_tiles().get<C>() == 0) & (d.local_nr_tiles().get<C>() == 0) & (d.local_size().get<C>() == 0), "no elements, no tiles");
  vc_assert((d.nr_blocks().get<C>() == 0) & (d.local_nr_blocks().get<C>() == 0), "no elements, no blocks");
}
BOTH(empty)

// a sub-distribution is the distribution of the sub-matrix: same blocks, same owners
template <Coord C> void sub() {
  Free p = any_free(false);
  const long y = vc_range("origin_round", 0, lim(1L << 40, 3)), x = vc_range("origin_rank", 0, lim(1L << 20, 3)), t = vc_range("origin_tile", 0, lim(1L << 20, 2)), e = vc_range("origin_in_tile", 0, lim(1L << 20, 3));
  vc_assume((x < p.P) & (t < p.k) & (e < p.nb));
  const long o = ((y * p.P + x - p.src) * p.k + t - p.to) * p.nb + e - p.eo;  // x: the rank that owns the origin
  const long s = vc_range("sub_size", 0, lim(1L << 40, 30));
  vc_assume((0 <= o) & (o <= p.n) & (s <= p.n - o));
  vc_lemma(y * p.P + x - p.src >= 0);
  vc_lemma((y * p.P + x - p.src) * p.k + t - p.to >= 0);
  Distribution d = global_part<C>(p);
  vc_cover("any");
  matrix::SubDistributionSpec spec{C == Coord::Row ? GlobalElementIndex(o, 0) : GlobalElementIndex(0, o), gsz<C>(s)};
  Distribution sub(d, spec);
  vc_assert((sub.offset().get<C>() == t * p.nb + e) & (sub.source_rank_index().get<C>() == x), "the blocks of the sub-matrix are those of the matrix");
  vc_assert(sub == make<C>(s, p.nb, p.k, p.P, p.rank, (int) x, t * p.nb + e), "and nothing else differs from a distribution built directly");
}
BOTH(sub)

VC_PROOF(copy_move, "") {
  Free p = any_free(false);
  Distribution d = make<Coord::Row>(p.n, p.nb, p.k, p.P, p.rank, p.src0, p.off), none;
  vc_cover("any");
  Distribution c(d);
  vc_assert(c == d, "copy");
  Distribution m(std::move(c));
  vc_assert((m == d) & (c == none), "move leaves an empty distribution");
  Distribution a;
  a = m;
  vc_assert((a == d) & (m == d), "copy assignment");
  Distribution b;
  b = std::move(a);
  vc_assert((b == d) & (a == none), "move assignment leaves an empty distribution");
  vc_assert(!(b != d), "inequality");
  vc_assert((none.size() == GlobalElementSize(0, 0)) & (none.nr_tiles() == GlobalTileSize(0, 0)) & (none.local_size() == LocalElementSize(0, 0)) & (none.local_nr_tiles() == LocalTileSize(0, 0)), "default is empty");
}
