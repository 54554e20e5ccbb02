//@property: C14
//@stubs: 1
//@assume: bounded: matrices of 2x2 tiles, histories of up to three accesses to two tiles (order of accesses)
//@trusted: pika::async_rw_mutex grants accesses in the order in which they were requested, consecutive reads together (stubs/pika)
// The order in which accesses to the tiles of a matrix, its sub-pipelines and references are granted.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <matrix/tile.cpp>
#include <matrix.cpp>
#include <tune.cpp>
#include <matrix/matrix_ref.cpp>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "c02_common.h"
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
using namespace dlaf::matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using T = double;
using M = Matrix<T, Device::CPU>;
using MC = Matrix<const T, Device::CPU>;
using Ref = matrix::internal::MatrixRef<T, Device::CPU>;
using RefC = matrix::internal::MatrixRef<const T, Device::CPU>;
using W = Tile<T, Device::CPU>;
using R = matrix::internal::TileAsyncRwMutexReadOnlyWrapper<T, Device::CPU>;
using LI = LocalTileIndex;

// ---- 5x3 elements in tiles of 4x2 elements
static T* elements() { return (T*) vc_alloc(8 * 3 * sizeof(T), "matrix"); }
static ColMajorLayout layout() {
  return ColMajorLayout(Distribution(GlobalElementSize(5, 3), TileElementSize(4, 2), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)), 8);
}
static int pick(const char* name, int n) {
  const long k = vc_range(name, 0, n - 1);
  for (int i = 0; i < n - 1; ++i) vc_split(k == i);
  for (int i = 0; i < n - 1; ++i)
    if (k == i) return i;
  return n - 1;
}
static int flip(const char* n) { return pick(n, 2); }

// one access
struct Acc {
  bool write = false, started = false, granted = false, released = false;
  LI at;
  std::optional<ReadWriteTileSender<T, Device::CPU>> sw;
  std::optional<ReadOnlyTileSender<T, Device::CPU>> sr;
  std::optional<W> w;
  std::optional<R> r;
  template <class X> void request(X& m, bool wr, LI i) {
    write = wr;
    at = i;
    if constexpr (std::is_same_v<X, MC> || std::is_same_v<X, RefC>) {
      write = false;
      sr.emplace(m.read(i));
    }
    else {
      if (wr) sw.emplace(m.readwrite(i));
      else sr.emplace(m.read(i));
    }
  }
  void start() {
    started = true;
    if (write) {
      auto s = std::move(*sw);
      sw.reset();
      ex::start_detached(std::move(s) | ex::then([this](W x) { w.emplace(std::move(x)); granted = true; }));
    }
    else {
      auto s = std::move(*sr);
      sr.reset();
      ex::start_detached(std::move(s) | ex::then([this](R x) { r.emplace(std::move(x)); granted = true; }));
    }
  }
  const Tile<const T, Device::CPU>& tile() const { return write ? static_cast<const Tile<const T, Device::CPU>&>(*w) : r->get(); }
  void release() {
    released = true;  // whoever waits is granted now
    w.reset();
    r.reset();
  }
};
static bool conflict(const Acc& a, const Acc& b) { return a.at == b.at && (a.write || b.write); }
static bool tile_is(const Acc& a, const T* p, long i, long j, long m, long n) {
  return a.tile().size() == TileElementSize(m, n) && a.tile().ptr() == p + i + 8 * j && a.tile().ld() == 8;
}
static bool whole_tile(const Acc& a, const T* p) {
  return tile_is(a, p, 4 * a.at.row(), 2 * a.at.col(), a.at.row() == 0 ? 4 : 1, a.at.col() == 0 ? 2 : 1);
}
static const int kPerm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};

// every tile has its own accesses
template <class X, class Y> static void all_tiles(X& m, Y& other, const T* p) {
  vc_cover("any");
  Acc a[2][2];
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) {
      a[i][j].request(m, true, LI(i, j));
      a[i][j].start();
      vc_assert(a[i][j].granted, "accesses to different tiles do not wait for each other");
    }
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) vc_assert(whole_tile(a[i][j], p), "the tile asked for");
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) {
      Acc b;
      b.request(other, true, LI(i, j));
      b.start();
      vc_assert(!b.granted || !a[i][j].write, "exclusive access");
      a[i][j].release();
      vc_assert(b.granted, "access granted after the previous one");
      vc_assert(whole_tile(b, p), "the same tile");
      b.release();
    }
}
VC_PROOF(tiles, "") {
  T* p = elements();
  M m(layout(), p);
  all_tiles(m, m, p);
}
VC_PROOF(tiles_moved, "") {
  T* p = elements();
  M m0(layout(), p);
  Acc a;
  a.request(m0, true, LI(1, 0));
  M m1(std::move(m0));
  M m(layout(), elements());
  m = std::move(m1);
  Acc b;
  b.request(m, false, LI(1, 0));
  b.start();
  vc_assert(!b.granted, "the accesses move with the matrix");
  a.start();
  a.release();
  vc_assert(b.granted && whole_tile(b, p), "and are granted");
  b.release();
  all_tiles(m, m, p);
}
VC_PROOF(tiles_const, "") {
  T* p = elements();
  MC m(layout(), (const T*) p);
  all_tiles(m, m, p);
}
VC_PROOF(tiles_global, "") {
  T* p = elements();
  M m(layout(), p);
  vc_cover("any");
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) {
      { auto t = tt::sync_wait(m.readwrite(GlobalTileIndex(i, j)));
        vc_assert(t.ptr() == p + 4 * i + 16 * j, "the tile asked for"); }
      { auto t = tt::sync_wait(m.read(GlobalTileIndex(i, j)));
        vc_assert(t.get().ptr() == p + 4 * i + 16 * j, "the tile asked for"); }
    }
}
VC_PROOF(tiles_reference, "") {
  T* p = elements();
  M m(layout(), p);
  Ref r(m);
  all_tiles(r, m, p);
  all_tiles(m, r, p);
}

// three accesses to up to two tiles, started and released in any order
template <class X, class Y> static void history(X& m, Y& other, const T* p, int kinds) {
  Acc a[3];
  const int elsewhere = flip("the second access is to another tile");
  for (int i = 0; i < 3; ++i) {
    const bool w = (kinds >> i) & 1, o = i == 1 && elsewhere;
    if (i != 1) a[i].request(m, w, LI(1, 0));
    else a[i].request(other, w, o ? LI(0, 1) : LI(1, 0));
  }
  const int *s = kPerm[pick("start", 6)];
  const bool last_first = flip("release the latest first");
  auto check = [&] {
    for (int i = 0; i < 3; ++i) {
      bool free = a[i].started;
      for (int j = 0; j < i; ++j) free = free && (!conflict(a[i], a[j]) || a[j].released);
      vc_assert(a[i].granted == free, "an access is granted when, and only when, all conflicting accesses requested before are over");
      if (a[i].granted && !a[i].released) vc_assert(whole_tile(a[i], p), "the tile asked for");
    }
  };
  check();
  for (int i = 0; i < 3; ++i) {
    a[s[i]].start();
    check();
  }
  vc_cover("any");
  for (int n = 0; n < 3; ++n) {
    int k = -1;
    for (int i = 0; i < 3; ++i)
      if (a[i].granted && !a[i].released && (last_first || k < 0)) k = i;
    if (k < 0) { vc_unreachable("no access waits for ever"); return; }
    a[k].release();
    check();
  }
}
static void order(int kinds) {
  const long heap = vc_live_heap();
  T* p = elements();
  { M m(layout(), p);
    history(m, m, p, kinds); }
  vc_assert(vc_live_heap() == heap + 1, "nothing left behind");
}
static void order_reference(int kinds) {
  T* p = elements();
  M m(layout(), p);
  Ref r(m);
  history(m, r, p, kinds);
}
VC_PROOF(order_rrr, "") { order(0); }
VC_PROOF(order_wrr, "") { order(1); }
VC_PROOF(order_rwr, "") { order(2); }
VC_PROOF(order_wwr, "") { order(3); }
VC_PROOF(order_rrw, "") { order(4); }
VC_PROOF(order_wrw, "") { order(5); }
VC_PROOF(order_rww, "") { order(6); }
VC_PROOF(order_www, "") { order(7); }
VC_PROOF(order_reference_wrr, "") { order_reference(1); }
VC_PROOF(order_reference_rwr, "") { order_reference(2); }
VC_PROOF(order_reference_rrw, "") { order_reference(4); }
VC_PROOF(order_reference_www, "") { order_reference(7); }

// ---- sub-pipelines: an access before, two in the sub-pipeline, one after
template <class X, class Sub> static void sequenced(X& m, std::optional<Sub>& sub, void (*make)(X&, std::optional<Sub>&), const T* p, int kinds, LI at, LI in0, LI in1, void (*is_sub)(const Acc&, const T*)) {
  Acc before, in[2], after;
  before.request(m, kinds & 1, at);
  const int lazy = flip("the first access starts last");
  if (!lazy) before.start();
  make(m, sub);
  const int early = flip("the last access is requested before those in the sub-pipeline");
  if (early) after.request(m, kinds & 8, at);
  if (flip("the last access starts first") && early) after.start();
  in[0].request(*sub, kinds & 2, in0);
  in[1].request(*sub, kinds & 4, in1);
  if (!early) after.request(m, kinds & 8, at);
  if (!after.started) after.start();
  in[0].start();
  in[1].start();
  const int gone = pick("the sub-pipeline goes early, by tile, late", 3);
  if (gone == 0) sub.reset();
  if (gone == 1) {
    sub->done(in0);
    if (!(in1 == in0)) sub->done(in1);
  }
  vc_cover("any");
  vc_assert(!after.granted || !(before.write || after.write), "accesses after wait for those before");
  for (int i = 0; i < 2; ++i) vc_assert(!in[i].granted || (before.started && !before.write && !in[i].write), "accesses in the sub-pipeline wait for those before");
  if (lazy) before.start();
  vc_assert(before.granted && whole_tile(before, p), "accesses before a sub-pipeline do not wait");
  for (int i = 0; i < 2; ++i) vc_assert(!in[i].granted || !(before.write || in[i].write), "accesses in the sub-pipeline wait for those before");
  before.release();
  vc_assert(in[0].granted, "and are granted after them");
  vc_assert(in[1].granted == !conflict(in[0], in[1]), "in the order of the requests");
  const int swap = in[1].granted ? flip("release order") : 0;
  for (int n = 0; n < 2; ++n) {
    const int k = n ^ swap;
    vc_assert(in[k].granted, "in the order of the requests");
    if (!in[k].granted) return;
    is_sub(in[k], p);
    for (int i = 0; i < 2; ++i)
      vc_assert(!after.granted || in[i].released || !(in[i].write || after.write), "accesses after wait for those in the sub-pipeline");
    in[k].release();
  }
  vc_assert(!after.granted || gone != 2, "accesses after wait as long as the sub-pipeline may be used");
  sub.reset();
  vc_assert(after.granted && whole_tile(after, p), "and no longer");
}
static void make_sub(M& m, std::optional<M>& s) { s.emplace(m.sub_pipeline()); }
static void make_sub_const(MC& m, std::optional<MC>& s) { s.emplace(m.sub_pipeline_const()); }
static void make_sub_sub(M& m, std::optional<M>& s) {
  M t = m.sub_pipeline();
  s.emplace(t.sub_pipeline());
}
static void is_whole(const Acc& a, const T* p) { vc_assert(whole_tile(a, p), "the tile of the matrix"); }
template <class X, class Sub> static void sub_pipelines(void (*make)(X&, std::optional<Sub>&), int kinds) {
  const long heap = vc_live_heap();
  T* p = elements();
  {
    X m(layout(), p);
    std::optional<Sub> sub;
    sequenced<X, Sub>(m, sub, make, p, kinds, LI(1, 0), LI(1, 0), LI(1, 0), &is_whole);
  }
  vc_assert(vc_live_heap() == heap + 1, "nothing left behind");
}
VC_PROOF(sub_pipeline_rrrr, "") { sub_pipelines<M, M>(&make_sub, 0); }
VC_PROOF(sub_pipeline_wrrr, "") { sub_pipelines<M, M>(&make_sub, 1); }
VC_PROOF(sub_pipeline_rwrr, "") { sub_pipelines<M, M>(&make_sub, 2); }
VC_PROOF(sub_pipeline_rrwr, "") { sub_pipelines<M, M>(&make_sub, 4); }
VC_PROOF(sub_pipeline_rrrw, "") { sub_pipelines<M, M>(&make_sub, 8); }
VC_PROOF(sub_pipeline_wrrw, "") { sub_pipelines<M, M>(&make_sub, 9); }
VC_PROOF(sub_pipeline_wwrw, "") { sub_pipelines<M, M>(&make_sub, 11); }
VC_PROOF(sub_pipeline_wwww, "") { sub_pipelines<M, M>(&make_sub, 15); }
VC_PROOF(sub_pipeline_const, "") { sub_pipelines<MC, MC>(&make_sub_const, 0); }
VC_PROOF(sub_pipeline_nested_rw, "") { sub_pipelines<M, M>(&make_sub_sub, 8); }
VC_PROOF(sub_pipeline_nested_ww, "") { sub_pipelines<M, M>(&make_sub_sub, 15); }

// retiled: tile (0, 0) of 4x2 elements has 2 tiles of 2x2 elements
static void is_half(const Acc& a, const T* p) { vc_assert(tile_is(a, p, 2 * a.at.row(), 0, 2, 2), "the part of the tile"); }
static const LocalTileSize kHalf(2, 1);
static void make_retiled(M& m, std::optional<M>& s) { s.emplace(m.retiled_sub_pipeline(kHalf)); }
static void make_retiled_ref(Ref& m, std::optional<M>& s) { s.emplace(m.retiled_sub_pipeline(kHalf)); }
static void make_sub_retiled(M& m, std::optional<M>& s) {
  M t = m.retiled_sub_pipeline(kHalf);
  s.emplace(t.sub_pipeline());
}
static void retiled(void (*make)(M&, std::optional<M>&), int kinds) {
  const long heap = vc_live_heap();
  T* p = elements();
  {
    M m(layout(), p);
    std::optional<M> sub;
    sequenced<M, M>(m, sub, make, p, kinds, LI(0, 0), LI(0, 0), LI(1, 0), &is_half);
  }
  vc_assert(vc_live_heap() == heap + 1, "nothing left behind");
}
VC_PROOF(retiled_rrrw, "") { retiled(&make_retiled, 8); }
VC_PROOF(retiled_rwwr, "") { retiled(&make_retiled, 6); }
VC_PROOF(retiled_wwrw, "") { retiled(&make_retiled, 11); }
VC_PROOF(retiled_wrww, "") { retiled(&make_retiled, 13); }
VC_PROOF(retiled_sub_pipeline, "") { retiled(&make_sub_retiled, 15); }
VC_PROOF(retiled_reference, "") {
  T* p = elements();
  M m(layout(), p);
  Ref r(m);
  std::optional<M> sub;
  sequenced<Ref, M>(r, sub, &make_retiled_ref, p, 15, LI(0, 0), LI(0, 0), LI(1, 0), &is_half);
}
// the same tile of the retiled matrix twice
VC_PROOF(retiled_same, "") {
  T* p = elements();
  M m(layout(), p);
  std::optional<M> sub;
  sequenced<M, M>(m, sub, &make_retiled, p, 15, LI(0, 0), LI(1, 0), LI(1, 0), &is_half);
}

// ---- an unused sub-pipeline does not keep the tiles
VC_PROOF(unused, "") {
  T* p = elements();
  M m(layout(), p);
  const int kind = pick("kind", 4);
  Acc before, after;
  before.request(m, true, LI(0, 1));
  if (kind == 0) m.sub_pipeline();
  if (kind == 1) m.retiled_sub_pipeline(kHalf);
  if (kind == 2) { auto s = m.readwrite(LI(0, 1)); }
  if (kind == 3) { auto s = m.read(LI(0, 1)); }
  after.request(m, true, LI(0, 1));
  after.start();
  before.start();
  vc_cover("any");
  vc_assert(!after.granted, "accesses after wait for those before");
  before.release();
  vc_assert(after.granted && whole_tile(after, p), "and no longer");
}

// ---- waiting for all accesses: the other threads finish while this one waits
static Acc acc[3];
static int finished;
static bool progress() {
  if (finished == 3) return false;
  Acc& a = acc[finished++];
  vc_assert(a.granted, "accesses are granted in turn");
  a.release();
  return true;
}
VC_PROOF(wait, "") {
  T* p = elements();
  M m(layout(), p);
  std::optional<M> sub;
  finished = 0;
  const int in_sub = flip("through a sub-pipeline");
  acc[0].request(m, true, LI(0, 1));
  if (in_sub) sub.emplace(m.sub_pipeline());
  acc[1].request(in_sub ? *sub : m, flip("write"), LI(0, 1));
  acc[2].request(m, flip("write"), LI(1, 1));
  for (int i = 0; i < 3; ++i) acc[i].start();
  sub.reset();
  pika::this_thread::experimental::vc_progress = &progress;
  vc_cover("any");
  m.wait_local_tiles();
  for (int i = 0; i < 3; ++i) vc_assert(acc[i].released, "all accesses are over");
  pika::this_thread::experimental::vc_progress = nullptr;
  Acc b;
  b.request(m, true, LI(1, 1));
  b.start();
  vc_assert(b.granted && whole_tile(b, p), "the matrix can be used again");
}
VC_PROOF(wait_idle, "") {
  T* p = elements();
  MC m(layout(), p);
  vc_cover("any");
  m.wait_local_tiles();
  m.wait_local_tiles();
  Acc b;
  b.request(m, false, LI(1, 1));
  b.start();
  vc_assert(b.granted && whole_tile(b, p), "the matrix can be used again");
}

// ---- tiles marked as done
VC_PROOF(done, "") {
  T* p = elements();
  M m(layout(), p);
  Acc a, b, c;
  a.request(m, true, LI(1, 0));
  b.request(m, false, LI(1, 0));
  if (flip("global index")) m.done(GlobalTileIndex(1, 0));
  else m.done(LI(1, 0));
  b.start();
  a.start();
  vc_assert(a.granted && !b.granted && whole_tile(a, p), "accesses requested before are granted");
  a.release();
  vc_assert(b.granted && whole_tile(b, p), "in turn");
  b.release();
  c.request(m, true, LI(0, 1));
  c.start();
  vc_assert(c.granted && whole_tile(c, p), "the other tiles are not affected");
  vc_cover("any");
  const int kind = pick("kind", 3);
  vc_allow_abort(true);
  if (kind == 0) m.read(LI(1, 0));
  else if (kind == 1) m.readwrite(LI(1, 0));
  else m.sub_pipeline();
  vc_allow_abort(false);
  vc_unreachable("a tile marked as done is accessed");
}
// ---- tiles that do not exist
VC_PROOF(outside, "") {
  M m(layout(), elements());
  const long i = vc_range("i", -3, 5), j = vc_range("j", -3, 5);
  vc_assume((i < 0) | (j < 0) | (i >= 2) | (j >= 2));
  vc_cover("any");
  const int kind = flip("kind");
  vc_allow_abort(true);
  if (kind == 0) m.read(GlobalTileIndex(i, j));
  else m.readwrite(GlobalTileIndex(i, j));
  vc_allow_abort(false);
  vc_unreachable("a tile that does not exist is accessed");
}

// ---- sub-pipelines are matrices like the one they are made of
VC_PROOF(sub_pipeline_layout, "") {
  T* p = elements();
  const long where = pick("layout", 2);
  M m = where == 0 ? M(layout(), p) : M(layout().distribution(), AllocationSpec(AllocationLayout::Tiles));
  M s = m.sub_pipeline(), ss = s.sub_pipeline(), r = m.retiled_sub_pipeline(kHalf);
  vc_cover("any");
  vc_assert(s.allocation_layout() == m.allocation_layout() && ss.allocation_layout() == m.allocation_layout(), "layout");
  vc_assert(r.allocation_layout() == (where == 0 ? AllocationLayout::ColMajor : AllocationLayout::Blocks), "layout of the retiled matrix");
  vc_assert(s.distribution() == m.distribution() && ss.distribution() == m.distribution(), "distribution");
  vc_assert(r.size() == m.size() && r.block_size() == m.block_size() && r.tile_size() == TileElementSize(2, 2), "distribution of the retiled matrix");
  vc_assert(m.allocation_layout() == (where == 0 ? AllocationLayout::ColMajor : AllocationLayout::Tiles), "layout");
}
