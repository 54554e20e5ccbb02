//@property: C13
//@stubs: 1
//@assume: element types of 8 and 16 bytes; tiles with extents and leading dimensions below 2^24
//@assume: accesses to a tile are granted in the order requested and end when the last holder goes (stubs/pika/async_rw_mutex.hpp states the contract of pika's async_rw_mutex)
// Tiles and subtiles: which memory they refer to, and whose access they keep.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <dlaf/matrix/internal/tile_pipeline.h>
#include "vc.h"
using namespace dlaf;
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;

static const long K = 1L << 24;
static long lim(long v, long nat) { return vc_verifying() ? v : nat; }
static long ext(const char* n, long lo = 0) { return vc_range(n, lo, lim(K, 6)); }
template <class T> using Mem = memory::MemoryView<T, Device::CPU>;
template <class T> using Ti = Tile<T, Device::CPU>;
using C = std::complex<double>;
#define TYPES(name) \
  VC_PROOF(name##_double, "") { name<double>(); } \
  VC_PROOF(name##_complex, "") { name<C>(); }

struct Shape { long m, n, ld, mem; };
static Shape any_shape(long lo) {
  Shape s;
  s.m = ext("rows", lo), s.n = ext("cols", lo), s.ld = ext("ld", 1);
  s.mem = s.m > 0 && s.n > 0 ? s.m + s.ld * (s.n - 1) : 0;
  vc_assume(s.m <= s.ld);
  return s;
}
// a tile somewhere in the memory of a view
template <class T> struct Placed {
  Mem<T> all;
  Ti<T> tile;
};
template <class T> static Placed<T> place(const Shape& s) {
  const long before = vc_range("elements_before", 0, lim(1L << 49, 5)), after = vc_range("elements_after", 0, lim(1L << 49, 5));
  Mem<T> all(before + s.mem + after);
  Ti<T> t(TileElementSize(s.m, s.n), Mem<T>(all, before, s.mem), s.ld);
  vc_assert((s.mem == 0) | (t.ptr() == all() + before), "a tile starts where its memory does");
  return {std::move(all), std::move(t)};
}
static long in(const char* n, long lim_) {
  long v = vc_range(n, 0, lim(K, 6));
  vc_assume(v < lim_);
  return v;
}

template <class T> static void elements() {
  const Shape s = any_shape(1);
  Placed<T> p = place<T>(s);
  const Ti<T>& t = p.tile;
  vc_assert((t.size() == TileElementSize(s.m, s.n)) & (t.ld() == s.ld), "size and leading dimension");
  vc_assert(t.is_contiguous() == (s.ld == s.m), "contiguous exactly if the columns follow each other");
  const long i = in("i", s.m), j = in("j", s.n);
  const long k = in("k", s.m), l = in("l", s.n);
  vc_cover("any");
  vc_lemma(s.ld * j <= s.ld * (s.n - 1));
  T* e = t.ptr({i, j});
  vc_assert(e == t.ptr() + i + s.ld * j, "column major position of an element");
  vc_assert(&t({i, j}) == e, "reference to it");
  *(signed char*) e = 1;  // inside the memory
  vc_assume((i != k) | (j != l));
  vc_lemma((j >= l) | (j + 1 <= l));
  vc_lemma((j <= l) | (s.ld * j >= s.ld * l + s.ld));
  vc_lemma((l <= j) | (s.ld * l >= s.ld * j + s.ld));
  vc_lemma(s.ld * l <= s.ld * (s.n - 1));
  vc_assert(t.ptr({k, l}) != e, "different elements have different positions");
  const Tile<const T, Device::CPU>& c = t;
  vc_assert((c.ptr({i, j}) == e) & (&c({i, j}) == e) & (c.ptr() == t.ptr()), "the same for read-only tiles");
}
TYPES(elements)

template <class T> static void moves() {
  const Shape s = any_shape(0);
  const long heap = vc_live_heap();
  vc_cover("any");
  {
    Ti<T> t = [&] { Placed<T> p = place<T>(s); return std::move(p.tile); }();
    T* q = t.ptr();
    vc_assert((q == nullptr) == (s.mem == 0), "no pointer for tiles without elements");
    Ti<T> u(std::move(t));
    vc_assert((u.size() == TileElementSize(s.m, s.n)) & (u.ld() == s.ld) & (u.ptr() == q), "a move keeps the elements");
    vc_assert((t.size() == TileElementSize(0, 0)) & (t.ld() == 1) & (t.ptr() == nullptr), "and leaves an empty tile");
    Ti<T> v;
    vc_assert((v.size() == TileElementSize(0, 0)) & (v.ld() == 1) & (v.ptr() == nullptr), "empty tile");
    v = std::move(u);
    vc_assert((v.size() == TileElementSize(s.m, s.n)) & (v.ld() == s.ld) & (v.ptr() == q), "a move assignment keeps the elements");
    vc_assert((u.size() == TileElementSize(0, 0)) & (u.ld() == 1) & (u.ptr() == nullptr), "and leaves an empty tile");
    Tile<const T, Device::CPU> c(std::move(v));
    vc_assert((c.size() == TileElementSize(s.m, s.n)) & (c.ld() == s.ld) & (c.ptr() == q), "conversion to a read-only tile");
    vc_assert(s.mem == 0 || vc_alive(c.ptr()), "a tile keeps its memory");
  }
  vc_assert(vc_live_heap() == heap, "and releases it");
}
TYPES(moves)

// a subtile at any position
struct Sub { long oi, oj, m, n; };
static Sub any_sub(const Shape& s, long lo) {
  Sub b{ext("sub_row"), ext("sub_col"), ext("sub_rows", lo), ext("sub_cols", lo)};
  vc_assume((b.oi + b.m <= s.m) & (b.oj + b.n <= s.n));
  return b;
}
static SubTileSpec spec(const Sub& b) { return {{b.oi, b.oj}, {b.m, b.n}}; }
template <class T, class P> static void check_sub(const Shape& s, const Sub& b, T* base, const P& t) {
  vc_assert((t.size() == TileElementSize(b.m, b.n)) & (t.ld() == s.ld), "size and leading dimension of the subtile");
  const long i = in("i", b.m), j = in("j", b.n);
  vc_lemma(s.ld * (b.oj + j) <= s.ld * (s.n - 1));
  vc_lemma(s.ld * j <= s.ld * (b.n - 1));
  vc_assert(t.ptr({i, j}) == base + (b.oi + i) + s.ld * (b.oj + j), "element of a subtile is the element of the tile");
  vc_assert(t.ptr() == base + b.oi + s.ld * b.oj, "start of a subtile");
  vc_assert(*(const signed char*) t.ptr({i, j}) == *(const signed char*) t.ptr({i, j}), "inside the memory");
}
static void sub_facts(const Shape& s, const Sub& b) {
  vc_lemma(s.ld * b.oj + s.ld * (b.n - 1) <= s.ld * (s.n - 1));
  vc_lemma(s.ld * (b.n - 1) >= 0);
  vc_lemma(s.ld * b.oj >= 0);
}
template <class T> static void subtiles() {
  const Shape s = any_shape(1);
  const Sub b = any_sub(s, 1);
  sub_facts(s, b);
  Placed<T> p = place<T>(s);
  vc_cover("any");
  T* base = p.tile.ptr();
  {
    const Ti<T> t = p.tile.subTileReference(spec(b));
    check_sub(s, b, base, t);
    const Sub d{ext("subsub_row"), ext("subsub_col"), ext("subsub_rows", 1), ext("subsub_cols", 1)};
    vc_assume((d.oi + d.m <= b.m) & (d.oj + d.n <= b.n));
    const Shape sb{b.m, b.n, s.ld, 0};
    sub_facts(sb, d);
    check_sub(sb, d, t.ptr(), t.subTileReference(spec(d)));
  }
  const Tile<const T, Device::CPU>& c = p.tile;
  check_sub(s, b, (const T*) base, c.subTileReference(spec(b)));
}
TYPES(subtiles)
template <class T> static void empty_subtiles() {
  const Shape s = any_shape(0);
  const Sub b = any_sub(s, 0);
  vc_assume((b.m == 0) | (b.n == 0));
  Placed<T> p = place<T>(s);
  vc_cover("any");
  const Ti<T> t = p.tile.subTileReference(spec(b));
  vc_assert((t.size() == TileElementSize(b.m, b.n)) & (t.ld() == s.ld) & (t.ptr() == nullptr), "subtile without elements");
}
TYPES(empty_subtiles)

// what does not fit is rejected
template <class T> static void reject_tile() {
  const long m = vc_any_i64("rows"), n = vc_any_i64("cols"), ld = vc_any_i64("ld"), mem = vc_range("elements", 0, lim(K, 20));
  vc_assume((m >= -K) & (m <= K) & (n >= -K) & (n <= K) & (ld >= -K) & (ld <= K));
  const bool fits = (m >= 0) & (n >= 0) & (ld >= 1) & (ld >= m) & ((m == 0) | (n == 0) | (m + ld * (n - 1) <= mem));
  vc_assume(!fits);
  Mem<T> v(mem);
  vc_cover("any");
  vc_allow_abort(true);
  Ti<T> t(TileElementSize(m, n), std::move(v), ld);
  vc_unreachable("tiles that do not fit their memory are rejected");
}
TYPES(reject_tile)
template <class T> static void reject_subtile() {
  const Shape s = any_shape(0);
  const long oi = vc_any_i64("sub_row"), oj = vc_any_i64("sub_col"), m = vc_any_i64("sub_rows"), n = vc_any_i64("sub_cols");
  vc_assume((oi >= -K) & (oi <= K) & (oj >= -K) & (oj <= K) & (m >= -K) & (m <= K) & (n >= -K) & (n <= K));
  vc_assume((oi < 0) | (oj < 0) | (m < 0) | (n < 0) | (oi + m > s.m) | (oj + n > s.n));
  Placed<T> p = place<T>(s);
  vc_cover("any");
  vc_allow_abort(true);
  Ti<T> t = p.tile.subTileReference({{oi, oj}, {m, n}});
  vc_unreachable("subtiles that do not fit their tile are rejected");
}
TYPES(reject_subtile)

VC_PROOF(overlap, "") {
  const Sub a{ext("row_1"), ext("col_1"), ext("rows_1"), ext("cols_1")}, b{ext("row_2"), ext("col_2"), ext("rows_2"), ext("cols_2")};
  const bool o = matrix::internal::subTileSpecsOverlap(spec(a), spec(b));
  vc_cover("any");
  // the first element that can be in both
  const long i = a.oi > b.oi ? a.oi : b.oi, j = a.oj > b.oj ? a.oj : b.oj;
  const bool common = (a.oi <= i) & (i < a.oi + a.m) & (a.oj <= j) & (j < a.oj + a.n) & (b.oi <= i) & (i < b.oi + b.m) & (b.oj <= j) & (j < b.oj + b.n);
  vc_assert(!o | common, "overlapping subtiles share an element");
  const long k = ext("k"), l = ext("l");
  const bool any = (a.oi <= k) & (k < a.oi + a.m) & (a.oj <= l) & (l < a.oj + a.n) & (b.oi <= k) & (k < b.oi + b.m) & (b.oj <= l) & (l < b.oj + b.n);
  vc_assert(o | !any, "subtiles that do not overlap share none");
}

// ---- whose access the subtiles keep
template <class T> using Pipe = matrix::internal::TilePipeline<T, Device::CPU>;
using T0 = double;
static const SubTileSpec kSpecs[3] = {{{0, 0}, {2, 1}}, {{0, 1}, {2, 2}}, {{1, 0}, {0, 3}}};
struct Chain {
  Mem<T0> mem{6};
  Pipe<T0> pipe{Ti<T0>(TileElementSize(2, 3), Mem<T0>(mem, 0, 6), 2)};
  bool granted = false;  // the access requested last
  void next() {
    ex::start_detached(pipe.readwrite() | ex::then([this](Ti<T0>) { granted = true; }));
  }
};
template <class X> static void is_sub(const Chain& c, const X& t, const SubTileSpec& s) {
  vc_assert(t.size() == s.size && t.ld() == 2 && (s.size.isEmpty() || t.ptr() == c.mem() + s.origin.row() + 2 * s.origin.col()), "the subtile asked for");
}
// the order in which the holders go: any
static int order(int n) {
  int k = (int) vc_range("order", 0, n - 1);
  for (int i = 0; i < n; ++i) vc_split(k == i);
  for (int i = 0; i < n; ++i)
    if (k == i) return i;
  return 0;
}
static const int kPerm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};

VC_PROOF(disjoint_readwrite, "") {
  const long heap = vc_live_heap();
  {
    Chain c;
    bool first = false;
    std::optional<Ti<T0>> blocker;
    const bool blocked = vc_any_bool("previous access pending");
    vc_split(blocked);
    if (blocked) blocker.emplace(tt::sync_wait(c.pipe.readwrite()));
    auto subs = splitTileDisjoint(c.pipe.readwrite(), std::vector<SubTileSpec>(kSpecs, kSpecs + 3));
    c.next();
    vc_assert(subs.size() == 3, "one subtile per spec");
    const int* p = kPerm[order(6)];
    std::optional<Ti<T0>> t[3];
    int n = 0;
    for (int i = 0; i < 3; ++i)
      ex::start_detached(std::move(subs[p[i]]) | ex::then([&, i](Ti<T0> x) { t[p[i]].emplace(std::move(x)); ++n; }));
    vc_assert(n == (blocked ? 0 : 3), "subtiles are granted when the tile would have been");
    blocker.reset();
    vc_assert(n == 3, "all of them");
    vc_cover("any");
    for (int i = 0; i < 3; ++i) is_sub(c, *t[i], kSpecs[i]);
    const int* q = kPerm[order(6)];
    for (int i = 0; i < 3; ++i) {
      vc_assert(!c.granted, "the next access waits for all subtiles");
      t[q[i]].reset();
    }
    vc_assert(c.granted, "and no longer");
  }
  vc_assert(vc_live_heap() == heap, "nothing left behind");
}
VC_PROOF(disjoint_few, "") {
  Chain c;
  auto none = splitTileDisjoint(c.pipe.readwrite(), {});
  vc_assert(none.empty(), "no subtiles");
  auto one = splitTileDisjoint(c.pipe.readwrite(), {kSpecs[1]});
  c.next();
  vc_cover("any");
  vc_assert(one.size() == 1, "one subtile");
  {
    Ti<T0> t = tt::sync_wait(std::move(one[0]));
    is_sub(c, t, kSpecs[1]);
    vc_assert(!c.granted, "the next access waits for the subtile");
  }
  vc_assert(c.granted, "and no longer");
}
// a subtile of a disjoint subtile, split again
VC_PROOF(disjoint_nested, "") {
  Chain c;
  auto subs = splitTileDisjoint(c.pipe.readwrite(), std::vector<SubTileSpec>(kSpecs, kSpecs + 2));
  c.next();
  const SubTileSpec in[2] = {{{0, 0}, {1, 2}}, {{1, 0}, {1, 1}}};
  auto again = splitTileDisjoint(std::move(subs[1]), std::vector<SubTileSpec>(in, in + 2));
  vc_cover("any");
  {
    Ti<T0> a = tt::sync_wait(std::move(subs[0]));
    {
      Ti<T0> x = tt::sync_wait(std::move(again[0])), y = tt::sync_wait(std::move(again[1]));
      is_sub(c, x, {{0, 1}, {1, 2}});
      is_sub(c, y, {{1, 1}, {1, 1}});
      vc_assert(!c.granted, "the next access waits");
    }
    vc_assert(!c.granted, "for all subtiles");
  }
  vc_assert(c.granted, "and no longer");
}
VC_PROOF(single_readwrite, "") {
  Chain c;
  auto s = splitTile(c.pipe.readwrite(), kSpecs[1]);
  c.next();
  vc_cover("any");
  {
    Ti<T0> t = tt::sync_wait(std::move(s));
    is_sub(c, t, kSpecs[1]);
    vc_assert(!c.granted, "the next access waits for the subtile");
  }
  vc_assert(c.granted, "and no longer");
}
VC_PROOF(readonly, "") {
  const long heap = vc_live_heap();
  {
    Chain c;
    std::optional<Ti<T0>> blocker;
    const bool blocked = vc_any_bool("previous access pending");
    vc_split(blocked);
    if (blocked) blocker.emplace(tt::sync_wait(c.pipe.readwrite()));
    const bool many = vc_any_bool("several specs");
    vc_split(many);
    std::vector<ReadOnlyTileSender<T0, Device::CPU>> subs;
    if (many)
      subs = splitTile(c.pipe.read(), std::vector<SubTileSpec>(kSpecs, kSpecs + 3));
    else {
      auto whole = c.pipe.read();
      for (int i = 0; i < 3; ++i) subs.push_back(splitTile(whole, kSpecs[i]));
    }
    c.next();
    using W = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<T0, Device::CPU>;
    std::optional<W> t[3];
    int n = 0;
    const int* p = kPerm[order(6)];
    for (int i = 0; i < 3; ++i)
      ex::start_detached(std::move(subs[p[i]]) | ex::then([&, i](W x) { t[p[i]].emplace(std::move(x)); ++n; }));
    vc_assert(n == (blocked ? 0 : 3), "subtiles are granted when the tile would have been");
    blocker.reset();
    vc_assert(n == 3, "all of them at the same time");
    vc_cover("any");
    for (int i = 0; i < 3; ++i) is_sub(c, t[i]->get(), kSpecs[i]);
    const int* q = kPerm[order(6)];
    subs.clear();
    for (int i = 0; i < 3; ++i) {
      vc_assert(!c.granted, "the next access waits for all subtiles");
      t[q[i]].reset();
    }
    vc_assert(c.granted, "and no longer");
  }
  vc_assert(vc_live_heap() == heap, "nothing left behind");
}
VC_PROOF(shared_readwrite, "") {
  const long heap = vc_live_heap();
  {
    Chain c;
    auto s = shareReadWriteTile(c.pipe.readwrite());
    c.next();
    {
      auto s2 = s;
      auto a = tt::sync_wait(std::move(s)), b = tt::sync_wait(std::move(s2));
      vc_cover("any");
      is_sub(c, a.get(), {{0, 0}, {2, 3}});
      is_sub(c, b.get(), {{0, 0}, {2, 3}});
      vc_assert(!c.granted, "the next access waits for the readers");
    }
    vc_assert(c.granted, "and no longer");
  }
  vc_assert(vc_live_heap() == heap, "nothing left behind");
}
VC_PROOF(overlapping_rejected, "") {
  Chain c;
  const SubTileSpec in[3] = {{{0, 0}, {2, 1}}, {{0, 1}, {1, 2}}, {{0, 2}, {2, 1}}};
  vc_cover("any");
  vc_allow_abort(true);
  auto subs = splitTileDisjoint(c.pipe.readwrite(), std::vector<SubTileSpec>(in, in + 3));
  vc_unreachable("overlapping subtiles are rejected");
}
