//@property: C03
//@assume: extents below 2^31 for 32-bit coordinates and below 2^31 for 64-bit ones (their product fits the linear index type)
// Two-dimensional coordinates: linear index bijection, containment, transposition, iteration ranges.
#include <dlaf/common/index2d.h>
#include <dlaf/common/range2d.h>
#include "vc.h"
using namespace dlaf;
using namespace dlaf::common;
struct TagA;
using I64 = Index2D<SizeType, TagA>;
using S64 = Size2D<SizeType, TagA>;
using I32 = Index2D<int, TagA>;
using S32 = Size2D<int, TagA>;

template <class I, class S, class T>
static void roundtrip(Ordering ord) {
  long m = vc_range("rows", 1, (1L << 31) - 1), n = vc_range("cols", 1, (1L << 31) - 1);
  S dims((T) m, (T) n);
  long r = vc_range("r", 0, (1L << 31) - 1), c = vc_range("c", 0, (1L << 31) - 1);
  I ij((T) r, (T) c);
  vc_assume((r < m) & (c < n));
  vc_cover("in range");
  SizeType l = ord == Ordering::RowMajor ? computeLinearIndexRowMajor<SizeType>(ij, dims) : computeLinearIndexColMajor<SizeType>(ij, dims);
  vc_assert((l >= 0) & (l < m * n), "linear index inside the table");
  vc_assert(l == (ord == Ordering::RowMajor ? r * n + c : c * m + r), "linear index in the requested order");
  I back = computeCoords(ord, l, dims);
  vc_assert((back.row() == r) & (back.col() == c), "coordinates -> linear -> coordinates");
}
template <class I, class S, class T>
static void roundtrip2(Ordering ord) {
  long m = vc_range("rows", 1, (1L << 31) - 1), n = vc_range("cols", 1, (1L << 31) - 1);
  S dims((T) m, (T) n);
  long l = vc_range("linear", 0, 1L << 62);
  vc_assume(l < m * n);
  vc_cover("in range");
  I ij = computeCoords(ord, l, dims);
  vc_assert(ij.isIn(dims), "coordinates of a valid linear index are inside");
  SizeType back = ord == Ordering::RowMajor ? computeLinearIndexRowMajor<SizeType>(ij, dims) : computeLinearIndexColMajor<SizeType>(ij, dims);
  vc_assert(back == l, "linear -> coordinates -> linear");
}
VC_PROOF(row64, "") { roundtrip<I64, S64, SizeType>(Ordering::RowMajor); }
VC_PROOF(col64, "") { roundtrip<I64, S64, SizeType>(Ordering::ColumnMajor); }
VC_PROOF(row32, "") { roundtrip<I32, S32, int>(Ordering::RowMajor); }
VC_PROOF(col32, "") { roundtrip<I32, S32, int>(Ordering::ColumnMajor); }
VC_PROOF(lin_row64, "") { roundtrip2<I64, S64, SizeType>(Ordering::RowMajor); }
VC_PROOF(lin_col64, "") { roundtrip2<I64, S64, SizeType>(Ordering::ColumnMajor); }
VC_PROOF(lin_row32, "") { roundtrip2<I32, S32, int>(Ordering::RowMajor); }
VC_PROOF(lin_col32, "") { roundtrip2<I32, S32, int>(Ordering::ColumnMajor); }

// a narrower linear index type either holds the exact value or the call is rejected
VC_PROOF(narrow_linear, "") {
  int m = (int) vc_range("rows", 1, 1L << 30), n = (int) vc_range("cols", 1, 1L << 30);
  int r = (int) vc_range("r", 0, 1L << 30), c = (int) vc_range("c", 0, 1L << 30);
  vc_assume((r < m) & (c < n));
  vc_cover("in range");
  vc_allow_abort(true);
  int l = computeLinearIndexColMajor<int>(I32(r, c), S32(m, n));
  vc_cover("returned");
  vc_assert(l == (long) c * m + r, "narrow linear index is exact when returned");
}

static long any() { return vc_any_i64("v"); }
VC_PROOF(containment, "") {
  long r = vc_any_i64("r"), c = vc_any_i64("c"), m = vc_any_i64("m"), n = vc_any_i64("n");
  I64 ij(r, c);
  S64 sz(m, n);
  vc_cover("any");
  vc_assert(ij.isValid() == ((r >= 0) & (c >= 0)), "validity");
  vc_assert(ij.isIn(sz) == ((r >= 0) & (c >= 0) & (r < m) & (c < n)), "isIn");
  vc_assert(ij.isInOrOn(sz) == ((r >= 0) & (c >= 0) & (r <= m) & (c <= n)), "isInOrOn");
  vc_assert((ij == I64(r, c)) & !(ij != I64(r, c)), "equality is reflexive");
  long r2 = vc_any_i64("r2"), c2 = vc_any_i64("c2");
  vc_assert((ij == I64(r2, c2)) == ((r == r2) & (c == c2)), "equality");
  vc_assert((ij != I64(r2, c2)) == !((r == r2) & (c == c2)), "inequality");
  vc_assert((sz == S64(r2, c2)) == ((m == r2) & (n == c2)), "size equality");
}
VC_PROOF(subrange, "") {
  const long K = 1L << 62;
  long r = vc_range("r", -K, K - 1), c = vc_range("c", -K, K - 1), m = vc_range("m", 0, K - 1), n = vc_range("n", 0, K - 1), r0 = vc_range("r0", 0, K - 1), c0 = vc_range("c0", 0, K - 1);
  vc_cover("any");
  vc_assert(I64(r, c).isInSub(I64(r0, c0), S64(m, n)) == ((r >= r0) & (c >= c0) & (r < r0 + m) & (c < c0 + n)), "isInSub");
}
VC_PROOF(components, "") {
  long r = vc_any_i64("r"), c = vc_any_i64("c");
  I64 ij(r, c);
  vc_cover("any");
  vc_assert((ij.get<Coord::Row>() == r) & (ij.get<Coord::Col>() == c) & (ij.get(Coord::Row) == r) & (ij.get(Coord::Col) == c), "component access");
  I64 t = transposed(ij);
  vc_assert((t.row() == c) & (t.col() == r), "transposition swaps components");
  vc_assert(transposed(t) == ij, "transposition is an involution");
  I64 a(Coord::Row, r, c), b(Coord::Col, r, c);
  vc_assert((a.row() == r) & (a.col() == c) & (b.row() == c) & (b.col() == r), "component construction");
  vc_assert(orthogonal(Coord::Row) == Coord::Col && orthogonal(Coord::Col) == Coord::Row, "orthogonal");
  I64 d;
  vc_assert(!d.isValid(), "default index is invalid");
  std::array<long, 2> arr{r, c};
  I64 e(arr);
  vc_assert(e == ij, "construction from an array");
  S64 s(r, c);
  vc_assert((s.rows() == r) & (s.cols() == c) & (indexFromOrigin(s) == ij) & (sizeFromOrigin(ij) == s), "size accessors");
}
VC_PROOF(sizes, "") {
  long m = vc_range("m", 0, (1L << 31) - 1), n = vc_range("n", 0, (1L << 31) - 1);
  S64 s(m, n);
  S32 t((int) m, (int) n);
  vc_cover("any");
  vc_assert(s.isEmpty() == ((m == 0) | (n == 0)), "isEmpty");
  vc_assert(s.linear_size() == m * n, "linear size");
  vc_assert(t.linear_size() == m * n, "linear size of 32-bit extents does not overflow");
}
VC_PROOF(arith, "") {
  const long K = (1L << 62) - 1;
  long a = vc_range("a", -K, K), b = vc_range("b", -K, K), c = vc_range("c", -K, K), d = vc_range("d", -K, K);
  vc_cover("any");
  I64 i(a, b);
  S64 s(c, d);
  I64 p = i + s;
  vc_assert((p.row() == a + c) & (p.col() == b + d), "index + size");
  I64 q = i - s;
  vc_assert((q.row() == a - c) & (q.col() == b - d), "index - size");
  S64 z = i - I64(c, d);
  vc_assert((z.rows() == a - c) & (z.cols() == b - d), "index - index");
  S64 y = s - S64(a, b);
  vc_assert((y.rows() == c - a) & (y.cols() == d - b), "size - size");
  S64 w = s + S64(a, b);
  vc_assert((w.rows() == c + a) & (w.cols() == d + b), "size + size");
}

// ---- iteration ranges: position l of the range is (begin.row + l % ld, begin.col + l / ld), each index once
#define RANGE                                                                                              \
  long r0 = vc_range("r0", 0, 1L << 30), c0 = vc_range("c0", 0, 1L << 30), m = vc_range("m", 0, 1L << 30), n = vc_range("n", 0, 1L << 30);
VC_PROOF(range_size, "") {
  RANGE
  auto rg = iterate_range2d(I64(r0, c0), S64(m, n));
  vc_cover("any");
  vc_assert(rg.end() - rg.begin() == m * n, "as many positions as indices");
  vc_assert(rg.empty() == ((m == 0) | (n == 0)), "empty iff no index");
  auto r2 = iterate_range2d(I64(r0, c0), I64(r0 + m, c0 + n));
  vc_assert(r2.end() - r2.begin() == m * n, "as many positions as indices (begin/end form)");
  vc_assert(r2.empty() == ((m == 0) | (n == 0)), "empty iff no index (begin/end form)");
}
VC_PROOF(range_visit, "") {
  RANGE
  vc_assume((m > 0) & (n > 0));
  // every index has exactly one position
  long r = vc_range("r", 0, 1L << 30), c = vc_range("c", 0, 1L << 30);
  vc_assume((r < m) & (c < n));
  bool be = vc_any_bool("begin_end_form");
  auto rg = be ? iterate_range2d(I64(r0, c0), I64(r0 + m, c0 + n)) : iterate_range2d(I64(r0, c0), S64(m, n));
  vc_cover("any");
  long p = c * m + r;
  vc_lemma(p / m == c);
  vc_lemma(p % m == r);
  auto it = rg.begin();
  it += p;
  vc_assert(*it == I64(r0 + r, c0 + c), "column-major position");
  vc_assert(it->row() == r0 + r, "arrow access");
  vc_assert(it < rg.end(), "position inside the range");
  auto jt = rg.end();
  jt -= (m * n - p);
  vc_assert(jt == it && *jt == I64(r0 + r, c0 + c), "reached from the end too");
  vc_assert(rg.begin()[p] == *it, "subscript");
  vc_assert(isIndexInRange(I64(r0 + r, c0 + c), rg), "reported as inside the range");
}
VC_PROOF(range_only, "") {
  // position -> index is inside, and different positions give different indices
  RANGE
  vc_assume((m > 0) & (n > 0));
  long p = vc_range("p", 0, 1L << 60);
  vc_assume(p < m * n);
  auto rg = iterate_range2d(I64(r0, c0), S64(m, n));
  vc_cover("any");
  auto it = rg.begin() + p;
  auto v = *it;
  vc_assert(v.isInSub(I64(r0, c0), S64(m, n)), "visited index is inside");
  vc_assert((v.row() - r0) + (v.col() - c0) * m == p, "position determines and is determined by the index");
}
VC_PROOF(range_step, "") {
  RANGE
  vc_assume((m > 0) & (n > 0));
  long p = vc_range("p", 0, 1L << 60);
  vc_assume(p + 1 < m * n);
  vc_cover("any");
  auto rg = iterate_range2d(I64(r0, c0), S64(m, n));
  auto it = rg.begin() + p;
  auto o = *it;
  auto i1 = it;
  auto pre = ++i1;
  vc_lemma(p % m + 1 <= m);
  vc_lemma((p % m + 1 == m) | ((p + 1) / m == p / m));
  vc_lemma((p % m + 1 < m) | ((p + 1) / m == p / m + 1));
  bool wrap = o.row() + 1 == r0 + m;
  vc_assert((pre == i1) & ((*i1).row() == (wrap ? r0 : o.row() + 1)) & ((*i1).col() == (wrap ? o.col() + 1 : o.col())), "increment moves down the column, then to the next one");
  auto i2 = it;
  auto post = i2++;
  vc_assert((*post == o) & (*i2 == *i1), "post-increment");
  auto d = i1;
  --d;
  vc_assert((*d == o) & (d == it), "decrement undoes increment");
  auto e = i1--;
  vc_assert((*e == *i2) & (*i1 == o), "post-decrement");
  vc_assert((it < i2) & (it <= i2) & (i2 > it) & (i2 >= it) & (it != i2) & (i2 - it == 1) & !(i2 < it) & !(i2 <= it) & !(it > i2) & !(it >= i2), "iterator order");
}
VC_PROOF(range_outside, "") {
  RANGE
  long r = vc_range("r", 0, 1L << 31), c = vc_range("c", 0, 1L << 31);
  vc_assume(!((r >= r0) & (r < r0 + m) & (c >= c0) & (c < c0 + n)));
  vc_cover("any");
  if (m > 0 && n > 0) {
    vc_lemma((m * n - 1) / m == n - 1);
    vc_lemma((m * n - 1) % m == m - 1);
  }
  vc_assert(!isIndexInRange(I64(r, c), iterate_range2d(I64(r0, c0), S64(m, n))), "indices outside are not reported");
}
VC_PROOF(range_origin, "") {
  long m = vc_range("m", 1, 1L << 30), n = vc_range("n", 1, 1L << 30);
  vc_cover("any");
  auto a = iterate_range2d(S64(m, n));
  auto b = iterate_range2d(I64(m, n));
  vc_assert((*a.begin() == I64(0, 0)) & (*b.begin() == I64(0, 0)), "starts at the origin");
  vc_assert((a.end() - a.begin() == m * n) & (b.end() - b.begin() == m * n), "number of positions");
}
VC_PROOF(range_narrow, "") {
  // 32-bit coordinates: the number of positions does not wrap
  int r0 = (int) vc_range("r0", 0, 1L << 20), c0 = (int) vc_range("c0", 0, 1L << 20), m = (int) vc_range("m", 1, 1L << 30), n = (int) vc_range("n", 1, 1L << 30);
  bool be = vc_any_bool("begin_end_form");
  auto rg = be ? iterate_range2d(I32(r0, c0), I32(r0 + m, c0 + n)) : iterate_range2d(I32(r0, c0), S32(m, n));
  vc_cover("any");
  vc_assert(rg.end() - rg.begin() == (long) m * n, "as many positions as indices");
  long p = vc_range("p", 0, 1L << 60);
  vc_assume(p < (long) m * n);
  auto v = *(rg.begin() + p);
  vc_assert((v.row() - r0) + (long) (v.col() - c0) * m == p, "position determines the index");
  vc_assert(v.isInSub(I32(r0, c0), S32(m, n)), "visited index is inside");
}
