// ghost description of distributions, shared by the C02 harnesses
#pragma once
#include <matrix/distribution.cpp>
#include <dlaf/matrix/distribution_extensions.h>
#include "vc.h"
using namespace dlaf;
using matrix::Distribution;
namespace di = matrix::internal::distribution;

static long lim(long v, long nat) { return vc_verifying() ? v : nat; }

// One dimension of an arbitrary distribution, described by ghost parameters:
//   offset = (m*k + to)*nb + eo          (nb elements per tile, k tiles per block, m blocks)
//   size + to*nb + eo = ((Q*P + R)*k + T)*nb + w, 0 <= R < P, 0 <= T < k, 1 <= w <= nb   (when size > 0)
struct Par {
  long n, nb, k, m, to, eo;
  int P, rank, src;
  long Q, R, T, w, q;
  long off() const { return (m * k + to) * nb + eo; }
  long shift() const { return to * nb + eo; }
  long nt_() const { return (Q * P + R) * k + T - to + 1; }
  // what this rank owns, in closed form; its position relative to the source rank is q
  long nt, lnt, lsz;
  long lnt_() const { return (q < R ? (Q + 1) * k : q == R ? Q * k + T + 1 : Q * k) - (q == 0 ? to : 0); }
  long lsz_() const { return (q < R ? (Q + 1) * k * nb : q == R ? (Q * k + T) * nb + w : Q * k * nb) - (q == 0 ? to * nb + eo : 0); }
  int src0() const { return (int) ((src + m) % P); }
};
static Par any_par() {
  Par p;
  p.nb = vc_range("tile_size", 1, lim(1L << 20, 4));
  p.k = vc_range("tiles_per_block", 1, lim(1L << 20, 3));
  p.m = 0;
  p.to = vc_range("offset_tiles", 0, lim((1L << 20) - 1, 2));
  p.eo = vc_range("offset_elements", 0, lim((1L << 20) - 1, 3));
  p.P = (int) vc_range("grid_size", 1, lim(1L << 20, 4));
  p.q = vc_range("rank_to_src", 0, lim(1L << 20, 3));
  p.src = (int) vc_range("src_rank", 0, lim(1L << 20, 3));
  p.Q = vc_range("last_block_round", 0, lim(1L << 40, 3));
  p.w = vc_range("last_tile_size", 1, lim(1L << 20, 4));
  p.R = vc_range("last_block_rank", 0, lim(1L << 20, 3));
  p.T = vc_range("last_tile", 0, lim(1L << 20, 2));
  vc_assume((p.to < p.k) & (p.eo < p.nb) & (p.q < p.P) & (p.src < p.P) & (p.R < p.P) & (p.T < p.k) & (p.w <= p.nb));
  p.rank = (int) (p.src + p.q - (p.src + p.q >= p.P ? p.P : 0));
  p.n = ((p.Q * p.P + p.R) * p.k + p.T) * p.nb + p.w - p.to * p.nb - p.eo;
  p.nt = p.nt_(), p.lnt = p.lnt_(), p.lsz = p.lsz_();
  vc_assume((0 < p.n) & (p.n <= 1L << 40) & (p.nt >= 1));
  return p;
}
template <Coord C> Distribution make(const Par& p) {
  const long bl = p.k * p.nb, off = p.off();
  if (C == Coord::Row)
    return Distribution(GlobalElementSize(p.n, 5), GlobalElementSize(bl, 2), TileElementSize(p.nb, 2), comm::Size2D(p.P, 1), comm::Index2D(p.rank, 0), comm::Index2D(p.src, 0), GlobalElementIndex(off, 1));
  else
    return Distribution(GlobalElementSize(5, p.n), GlobalElementSize(2, bl), TileElementSize(2, p.nb), comm::Size2D(1, p.P), comm::Index2D(0, p.rank), comm::Index2D(0, p.src), GlobalElementIndex(1, off));
}
template <Coord C, class S> void fold(const S& x, long closed, const char* id) {
  vc_fold_as((&reinterpret_cast<const typename S::IndexType&>(x))[C == Coord::Row ? 0 : 1], closed, id);
}
template <Coord C, class S> void forget(const S& x, long v) {
  vc_forget(&(&reinterpret_cast<const typename S::IndexType&>(x))[C == Coord::Row ? 0 : 1], sizeof(typename S::IndexType), v);
}
// a distribution with normalised offset, its number of tiles and local sizes in closed form (proved here)
template <Coord C> Distribution dist(const Par& p) {
  vc_mark();
  // cases for the construction: is the last tile the last of its block, is that block the last of a round over the ranks
  vc_split(p.T + 1 < p.k);
  if (p.T + 1 == p.k)
    vc_split(p.R + 1 < p.P);
  Distribution d = make<C>(p);
  fold<C>(d.nr_tiles(), p.nt, "number of tiles");
  fold<C>(d.source_rank_index(), p.src, "source rank");
  fold<C>(d.local_nr_tiles(), p.lnt, "number of local tiles");
  fold<C>(d.local_size(), p.lsz, "local size");
  vc_merge();
  return d;
}
#define BOTH(name) \
  VC_PROOF(name##_row, "") { name<Coord::Row>(); } \
  VC_PROOF(name##_col, "") { name<Coord::Col>(); }

// mixed radix order: (y, x, t) against the last tile
static void lex(const Par& p, long y, long x, long t) {
  vc_lemma(y * p.P + x <= p.Q * p.P + p.R);
  vc_lemma(y <= p.Q);
  vc_lemma((y < p.Q) | (x <= p.R));
  vc_lemma((y < p.Q) | (x < p.R) | (t <= p.T));
  vc_lemma((y > 0) | (x > 0) | (t >= p.to));
}

// an arbitrary element: i + to*nb + eo = ((y*P + x)*k + t)*nb + e
struct Elem { long y, x, t, e, i, gt; int owner; };
static Elem any_elem(const Par& p) {
  Elem a;
  a.y = vc_range("elem_round", 0, lim(1L << 40, 3));
  a.x = vc_range("elem_rank", 0, lim(1L << 20, 3));
  a.t = vc_range("elem_tile", 0, lim(1L << 20, 2));
  a.e = vc_range("elem_in_tile", 0, lim(1L << 20, 3));
  vc_assume((a.x < p.P) & (a.t < p.k) & (a.e < p.nb));
  a.gt = (a.y * p.P + a.x) * p.k + a.t - p.to;
  a.i = (a.gt) * p.nb + a.e - p.eo;
  vc_assume((0 <= a.i) & (a.i < p.n) & (0 <= a.gt) & (a.gt < p.nt));
  lex(p, a.y, a.x, a.t);
  vc_lemma((a.y < p.Q) | (a.x < p.R) | (a.t < p.T) | (a.e < p.w));
  return a;
}

template <Coord C> GlobalElementSize gsz(long n) { return C == Coord::Row ? GlobalElementSize(n, 5) : GlobalElementSize(5, n); }
template <Coord C> GlobalElementIndex gix(long n, long o) { return C == Coord::Row ? GlobalElementIndex(n, o) : GlobalElementIndex(o, n); }

struct Free { long n, nb, k, to, eo, off; int P, rank, src, src0; };
// any distribution of n >= 0 elements; off = (m*k + to)*nb + eo and (src0 + m) % P == src, for any number m of whole blocks
static Free any_free(bool empty) {
  Free p;
  p.nb = vc_range("tile_size", 1, lim(1L << 20, 4));
  p.k = vc_range("tiles_per_block", 1, lim(1L << 20, 3));
  p.to = vc_range("offset_tiles", 0, lim((1L << 20) - 1, 2));
  p.eo = vc_range("offset_elements", 0, lim((1L << 20) - 1, 3));
  p.P = (int) vc_range("grid_size", 1, lim(1L << 20, 4));
  p.src = (int) vc_range("src_rank_of_offset", 0, lim(1L << 20, 3));
  p.src0 = (int) vc_range("src_rank", 0, lim(1L << 20, 3));
  p.rank = (int) vc_range("rank", 0, lim(1L << 20, 3));
  long u = vc_range("offset_rounds", 0, lim(1L << 40, 3)), m = u * p.P + p.src - p.src0;
  p.n = empty ? 0 : vc_range("size", 0, lim(1L << 40, 30));
  vc_assume((p.to < p.k) & (p.eo < p.nb) & (p.rank < p.P) & (p.src < p.P) & (p.src0 < p.P) & (0 <= m));
  p.off = (m * p.k + p.to) * p.nb + p.eo;
  vc_assume((0 <= p.off) & (p.off <= 1L << 40));
  return p;
}
template <Coord C> Distribution make(long n, long nb, long k, int P, int rank, int src, long off) {
  if (C == Coord::Row)
    return Distribution(gsz<C>(n), GlobalElementSize(k * nb, 2), TileElementSize(nb, 2), comm::Size2D(P, 1), comm::Index2D(rank, 0), comm::Index2D(src, 0), gix<C>(off, 1));
  else
    return Distribution(gsz<C>(n), GlobalElementSize(2, k * nb), TileElementSize(2, nb), comm::Size2D(1, P), comm::Index2D(0, rank), comm::Index2D(0, src), gix<C>(off, 1));
}

// what this rank owns is left arbitrary
template <Coord C> Distribution global_part(const Free& p) {
  const long x = vc_any_i64("local_tiles"), z = vc_any_i64("local_size");
  vc_mark();
  Distribution d = make<C>(p.n, p.nb, p.k, p.P, p.rank, p.src, p.to * p.nb + p.eo);
  // what this rank owns of d does not matter here: arbitrary
  forget<C>(d.local_nr_tiles(), x);
  forget<C>(d.local_size(), z);
  vc_merge();
  return d;
}
