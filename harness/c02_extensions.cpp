//@property: C02
//@stubs: 1
//@ldflags: -lmpi
//@assume: sizes below 2^40 elements, tiles of at most 2^20 elements, at most 2^20 tiles per block and 2^20 ranks per dimension
// include/dlaf/matrix/distribution_extensions.h: index conversions for other ranks, sub-distributions, distances between tiles.
#include "c02_common.h"

// the global part of a distribution: number of tiles in closed form, what this rank owns left arbitrary
template <Coord C> Distribution gdist(const Par& p) {
  const long x = vc_any_i64("local_tiles"), z = vc_any_i64("local_size");
  vc_mark();
  vc_split(p.T + 1 < p.k);
  if (p.T + 1 == p.k)
    vc_split(p.R + 1 < p.P);
  Distribution d = make<C>(p);
  fold<C>(d.nr_tiles(), p.nt, "number of tiles");
  fold<C>(d.source_rank_index(), p.src, "source rank");
  forget<C>(d.local_nr_tiles(), x);
  forget<C>(d.local_size(), z);
  vc_merge();
  return d;
}

// the conversions for another rank are those of a distribution seen from that rank
template <Coord C> void on_rank() {
  Par p = any_par();
  Distribution d = gdist<C>(p);
  const long q = vc_range("other_rank_to_src", 0, lim(1L << 20, 3));
  const long y = vc_range("elem_round", 0, lim(1L << 40, 3)), t = vc_range("elem_tile", 0, lim(1L << 20, 2)), e = vc_range("elem_in_tile", 0, lim(1L << 20, 3));
  vc_assume((q < p.P) & (t < p.k) & (e < p.nb));
  vc_split(p.src + q >= p.P);
  vc_split(q == 0);
  const int r = (int) (p.src + q - (p.src + q >= p.P ? p.P : 0));
  const long lt = y * p.k + t - (q == 0 ? p.to : 0), le = (y * p.k + t) * p.nb + e - (q == 0 ? p.shift() : 0);
  const long gt = (y * p.P + q) * p.k + t - p.to, i = gt * p.nb + e - p.eo;
  vc_assume((0 <= lt) & (0 <= le) & (0 <= gt) & (gt < p.nt) & (i < p.n));
  vc_cover("any");
  const long te = e - (gt == 0 ? p.eo : 0);
  vc_assert(di::local_tile_from_local_element_on_rank<C>(d, r, le) == lt, "local tile of a local element of another rank");
  vc_assert(di::tile_element_from_local_element_on_rank<C>(d, r, le) == te, "position in the tile");
  vc_assert(di::global_tile_from_local_tile_on_rank<C>(d, r, lt) == gt, "global tile of a local tile of another rank");
  vc_assert(di::global_element_from_local_element_on_rank<C>(d, r, le) == i, "global element of a local element of another rank");
  vc_assert(di::local_tile_from_global_tile_any_rank<C>(d, gt) == lt, "local index of a tile in its owner");
  vc_assert(d.template rank_global_tile<C>(gt) == r, "which is that rank");
}
BOTH(on_rank)

// the first local tile at or after a global tile
template <Coord C> void next_local() {
  Par p = any_par();
  Distribution d = gdist<C>(p);
  const long y = vc_range("tile_round", 0, lim(1L << 40, 3)), x = vc_range("tile_rank", 0, lim(1L << 20, 3)), t = vc_range("tile_in_block", 0, lim(1L << 20, 2));
  vc_assume((x < p.P) & (t < p.k));
  const long gt = (y * p.P + x) * p.k + t - p.to;
  vc_assume((0 <= gt) & (gt <= p.nt));
  vc_cover("any");
  const long own = p.q == 0 ? p.to : 0;
  const long expected = x == p.q ? y * p.k + t - own : x < p.q ? y * p.k : (y + 1) * p.k - own;
  vc_assert(d.next_local_tile_from_global_tile<C>(gt) == expected, "first local tile that is not before a global tile");
}
BOTH(next_local)

// an element in the middle of the matrix, relative to the start of its tile
template <Coord C> void distances() {
  Par p = any_par();
  Distribution d = gdist<C>(p);
  Elem a = any_elem(p);
  vc_cover("any");
  vc_assert(di::distance_to_adjacent_tile<C>(d, a.i) == (a.gt + 1 < p.nt ? (a.gt + 1) * p.nb - p.eo : p.n) - a.i, "distance to the next tile");
  const long to = vc_range("tile_end", 0, lim(1L << 40, 30));
  vc_assume((a.gt <= to) & (to <= p.nt));
  const long b = a.gt == 0 ? 0 : a.gt * p.nb - p.eo, e = to == p.nt ? p.n : to == 0 ? 0 : to * p.nb - p.eo;
  vc_assert(di::global_tile_element_distance<C>(d, a.gt, to) == e - b, "elements between two tiles");
}
BOTH(distances)

// local elements between two local tiles
template <Coord C> void local_distances() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  const long own = p.q == 0 ? p.to : 0, owe = p.q == 0 ? p.eo : 0;
  const long by = vc_range("begin_round", 0, lim(1L << 40, 3)), bt = vc_range("begin_tile", 0, lim(1L << 20, 2)), b = by * p.k + bt - own;
  vc_assume((bt < p.k) & (0 <= b) & (b <= p.lnt));
  vc_assert(di::local_element_distance_from_local_tile<C>(d, b, b) == 0, "no tiles, no elements");
  // the last tile
  const long y = vc_range("last_round", 0, lim(1L << 40, 3)), t = vc_range("last_tile_in_block", 0, lim(1L << 20, 2)), l = y * p.k + t - own;
  vc_assume((t < p.k) & (b <= l) & (l < p.lnt));
  vc_cover("some");
  vc_lemma(y <= p.Q);
  vc_lemma((y < p.Q) | (p.q <= p.R));
  vc_lemma((y < p.Q) | (p.q < p.R) | (t <= p.T));
  const long gt = (y * p.P + p.q) * p.k + t - p.to;
  vc_lemma(y * p.P + p.q <= p.Q * p.P + p.R);
  vc_lemma((y * p.P + p.q < p.Q * p.P + p.R) | (t <= p.T));
  vc_lemma(gt < p.nt);
  vc_lemma(gt >= 0);
  vc_split(p.q == 0);
  vc_split(p.q < p.R);
  vc_split(p.q == p.R);
  const long sz = d.global_tile_size_of<C>(gt);
  vc_assert(di::local_element_distance_from_local_tile<C>(d, b, l + 1) == (l == 0 ? 0 : l * p.nb - owe) + sz - (b == 0 ? 0 : b * p.nb - owe), "local elements between two local tiles");
}
BOTH(local_distances)

// column major numbering of tiles
template <Coord C> void linear() {
  Par p = any_par();
  Distribution d = dist<C>(p);
  const long i = vc_range("i", 0, lim(1L << 40, 6)), j = vc_range("j", 0, lim(1L << 40, 6));
  const bool R = C == Coord::Row;
  const long rows = R ? p.lnt : d.local_nr_tiles().rows(), cols = R ? d.local_nr_tiles().cols() : p.lnt;
  if ((i < rows) & (j < cols)) {
    vc_cover("local");
    const long l = di::local_tile_linear_index(d, LocalTileIndex(i, j));
    vc_assert(l == i + j * rows, "local tiles are numbered by columns");
  }
  Elem a = any_elem(p);
  const long o = vc_range("other", 0, 4), og = o == 0 ? 0 : (o + 1) / 2;  // tiles of 2, offset 1
  vc_assert(di::global_tile_linear_index(d, R ? GlobalElementIndex(a.i, o) : GlobalElementIndex(o, a.i)) == (R ? a.gt + og * p.nt : og + a.gt * 3), "global tiles are numbered by columns");
}
BOTH(linear)

template <Coord C> Distribution sub_part(const Distribution& d, const matrix::SubDistributionSpec& spec, int owner, long nt) {
  const long x = vc_any_i64("sub_local_tiles"), z = vc_any_i64("sub_local_size");
  vc_mark();
  Distribution sub(d, spec);
  fold<C>(sub.source_rank_index(), owner, "owner of the origin");
  fold<C>(sub.nr_tiles(), nt, "number of tiles of the sub-matrix");
  forget<C>(sub.local_nr_tiles(), x);
  forget<C>(sub.local_size(), z);
  vc_merge();
  return sub;
}
// an element of a sub-matrix, seen from the matrix
template <Coord C> void sub_index() {
  Par p = any_par();
  Distribution d = gdist<C>(p);
  const long y = vc_range("origin_round", 0, lim(1L << 40, 3)), x = vc_range("origin_rank", 0, lim(1L << 20, 3)), t = vc_range("origin_tile", 0, lim(1L << 20, 2)), e = vc_range("origin_in_tile", 0, lim(1L << 20, 3));
  vc_assume((x < p.P) & (t < p.k) & (e < p.nb));
  // x: the rank that owns the origin
  const long B = y * p.P + x - p.src, o = (B * p.k + t - p.to) * p.nb + e - p.eo;
  // size of the sub-matrix, by its last tile
  const long G = vc_range("sub_last_tile", 0, lim(1L << 40, 8)), w = vc_range("sub_last_tile_size", 1, lim(1L << 20, 4)), s = (G - t) * p.nb + w - e;
  vc_assume((0 <= o) & (o <= p.n) & (0 < s) & (s <= p.n - o) & (w <= p.nb) & (t <= G) & (0 <= B) & (0 <= B * p.k + t - p.to));
  matrix::SubDistributionSpec spec{C == Coord::Row ? GlobalElementIndex(o, 0) : GlobalElementIndex(0, o), gsz<C>(s)};
  Distribution sub = sub_part<C>(d, spec, (int) x, G - t + 1);
  const long gb = vc_range("block", 0, lim(1L << 40, 3)), v = vc_range("tile", 0, lim(1L << 20, 2)), g = gb * p.k + v, f = vc_range("in_tile", 0, lim(1L << 20, 3));
  const long i = (g - t) * p.nb + f - e;
  vc_assume((v < p.k) & (f < p.nb) & (0 <= i) & (i < s));
  vc_lemma(g >= t);
  vc_lemma(g <= G);
  vc_split(g == t);
  vc_lemma((g == t) | (B * p.k + g - p.to > 0));
  const long T0 = B * p.k + t - p.to;
  vc_split(T0 == 0);
  vc_lemma((T0 == 0) | (o + p.eo >= p.nb));
  vc_lemma((T0 == 0) | (o + i + p.eo >= p.nb));
  vc_lemma((T0 != 0) | (o + p.eo < p.nb));
  vc_lemma((T0 != 0) | (g != t) | (o + i + p.eo < p.nb));
  vc_lemma((g == t) | (o + i + p.eo >= p.nb));
  vc_lemma(B * p.k + g - p.to < p.nt);
  vc_lemma(B * p.k + t - p.to < p.nt);
  vc_cover("any");
  const long st = sub.global_tile_from_global_element<C>(i), se = sub.tile_element_from_global_element<C>(i);
  vc_assert((st == g - t) & (se == f - (g == t ? e : 0)), "tile of an element of the sub-matrix");
  const GlobalTileIndex si = C == Coord::Row ? GlobalTileIndex(st, 0) : GlobalTileIndex(0, st);
  vc_assert(di::global_tile_index_from_sub_distribution(d, spec.origin, sub, si).get<C>() == d.global_tile_from_global_element<C>(o + i), "tile of the matrix that holds a tile of the sub-matrix");
  vc_assert(di::tile_element_offset_from_sub_distribution(d, spec.origin, sub, si).get<C>() + se == d.tile_element_from_global_element<C>(o + i), "where it starts in that tile");
  vc_assert(d.rank_global_element<C>(o + i) == sub.rank_global_element<C>(i), "same owner");
}
BOTH(sub_index)

// blocks as tiles
template <Coord C> void blocks() {
  Par p = any_par();
  const long nbl = p.Q * p.P + p.R + 1, lnbl = p.q <= p.R ? p.Q + 1 : p.Q;
  Distribution d = dist<C>(p);
  vc_cover("any");
  vc_assert((d.nr_blocks().template get<C>() == nbl) & (d.local_nr_blocks().template get<C>() == lnbl), "number of blocks");
  Distribution h = matrix::internal::create_single_tile_per_block_distribution(d);
  vc_assert(h.single_tile_per_block() & (h.block_size() == d.block_size()) & (h.tile_size().get<C>() == p.k * p.nb), "blocks of one tile");
  vc_assert((h.size() == d.size()) & (h.local_size() == d.local_size()) & (h.offset() == d.offset()) & (h.source_rank_index() == d.source_rank_index()) & (h.grid_size() == d.grid_size()) & (h.rank_index() == d.rank_index()), "the same elements at the same places");
  vc_assert((h.nr_tiles().get<C>() == nbl) & (h.local_nr_tiles().get<C>() == lnbl), "as many tiles as blocks");
}
BOTH(blocks)
