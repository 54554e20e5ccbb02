//@property: C11
//@stubs: 1
//@assume: element types of 1, 4, 8 and 16 bytes; chunks smaller than 2^40 elements
//@assume: the host allocator returns a fresh region of the requested number of bytes (stubs/umpire forwards to malloc/free)
// Memory chunks and views: who owns what, and which element a view refers to.
#include <memory/memory_chunk.cpp>
#include <memory/memory_view.cpp>
#include <complex>
#include "vc.h"
using namespace dlaf;
using namespace dlaf::memory;

static const long K = 1L << 40;
static long lim(long v, long nat) { return vc_verifying() ? v : nat; }
template <class T> using Chunk = MemoryChunk<T, Device::CPU>;
template <class T> using View = MemoryView<T, Device::CPU>;
#define ALL_TYPES(name) \
  VC_PROOF(name##_char, "") { name<signed char>(); } \
  VC_PROOF(name##_int, "") { name<int>(); } \
  VC_PROOF(name##_double, "") { name<double>(); } \
  VC_PROOF(name##_complex, "") { name<std::complex<double>>(); }

static long any_size(const char* n, long lo = 0) { return vc_range(n, lo, lim(K, 40)); }

// the region of a chunk is fresh, large enough and freed exactly once
template <class T> static void chunk_alloc() {
  const long n = any_size("size"), heap = vc_live_heap();
  vc_cover("any");
  {
    Chunk<T> c(n);
    vc_assert(c.size() == n, "number of elements asked for");
    if (n == 0)
      vc_assert(c() == nullptr, "no memory for no elements");
    else {
      const long i = vc_range("index", 0, lim(K, 40));
      vc_assume(i < n);
      vc_assert((vc_live_heap() == heap + 1) | !vc_verifying(), "one region");
      T* p = c(i);
      vc_assert(p == c() + i, "position of an element");
      *(signed char*) p = 42;  // inside the region
      const Chunk<T>& cc = c;
      vc_assert((cc(i) == p) & (cc() == c()), "same for a constant chunk");
    }
  }
  vc_assert(vc_live_heap() == heap, "released");
}
ALL_TYPES(chunk_alloc)

template <class T> static void chunk_move() {
  const long n = any_size("size_1"), m = any_size("size_2"), heap = vc_live_heap();
  vc_cover("any");
  {
    Chunk<T> a(n);
    T* p = a();
    Chunk<T> b(std::move(a));
    vc_assert((b.size() == n) & (b() == p), "a move keeps the elements in place");
    vc_assert((a.size() == 0) & (a() == nullptr), "the source is empty");
    Chunk<T> c(m);
    c = std::move(b);
    vc_assert((c.size() == n) & (c() == p), "a move assignment keeps the elements in place");
    vc_assert((b.size() == 0) & (b() == nullptr), "the source is empty");
    vc_assert(n == 0 || vc_alive(p), "and still alive");
    vc_assert(vc_live_heap() == heap + (n > 0 ? 1 : 0) || !vc_verifying(), "the previous region of the target is released");
    b = Chunk<T>(m);
    vc_assert((b.size() == m) & ((b() == nullptr) == (m == 0)), "a moved from chunk can be assigned");
    a = std::move(c);
    vc_assert((a.size() == n) & (a() == p), "and so can it be moved to");
  }
  vc_assert(vc_live_heap() == heap, "each region is released exactly once");
}
ALL_TYPES(chunk_move)

template <class T> static void chunk_user() {
  const long n = any_size("size"), m = any_size("other_size");
  T* u = (T*) vc_alloc(n * sizeof(T), "user memory");
  const long heap = vc_live_heap();
  vc_cover("any");
  {
    Chunk<T> a(u, n);
    vc_assert((a.size() == n) & (a() == (n > 0 ? u : nullptr)), "the memory given");
    Chunk<T> b(std::move(a));
    vc_assert((b.size() == n) & (b() == (n > 0 ? u : nullptr)), "moved");
    Chunk<T> c(m);
    c = std::move(b);
    vc_assert((c.size() == n) & (c() == (n > 0 ? u : nullptr)), "move assigned");
    c = Chunk<T>(m);
    vc_assert(c.size() == m, "replaced");
  }
  vc_assert(vc_alive(u), "memory of the user is never released");
  vc_assert(vc_live_heap() == heap, "memory allocated is");
}
ALL_TYPES(chunk_user)

// views: an arbitrary view of an arbitrary view; the same element is at the same place
template <class T> static void view_sub() {
  const long n = any_size("size"), o1 = any_size("offset_1"), n1 = any_size("size_1"), o2 = any_size("offset_2"), n2 = any_size("size_2"), i = any_size("index");
  vc_assume((o1 + n1 <= n) & (o2 + n2 <= n1) & (i < n2));
  const long heap = vc_live_heap();
  vc_cover("any");
  {
    View<const T> c;
    T *p0, *p;
    {
      View<T> v(n);
      p0 = v();
      vc_assert((v.size() == n) & (v(o1) == p0 + o1), "whole view");
      View<T> v1(v, o1, n1);
      vc_assert((v1.size() == n1) & (v1() == p0 + o1) & (v1(o2) == p0 + o1 + o2), "a subview starts at its offset");
      View<T> v2(v1, o2, n2);
      p = p0 + o1 + o2 + i;
      vc_assert((v2.size() == n2) & (v2() == p0 + o1 + o2) & (v2(i) == p), "offsets add up");
      *(signed char*) v2(i) = 42;
      View<const T> c1(v1, o2, n2), c2(v2), c3(View<const T>(v1), o2, n2);
      vc_assert((c1(i) == p) & (c2(i) == p) & (c3(i) == p) & (c1.size() == n2) & (c2.size() == n2) & (c3.size() == n2), "constant views of the same elements");
      View<T> w(v2), x;
      x = w;
      vc_assert((w(i) == p) & (x(i) == p) & (x.size() == n2) & (w.size() == n2), "copies refer to the same elements");
      View<T> y(std::move(w)), z;
      vc_assert((w.size() == 0) & (w() == nullptr) & (y(i) == p) & (y.size() == n2), "moved");
      z = std::move(y);
      vc_assert((y.size() == 0) & (y() == nullptr) & (z(i) == p) & (z.size() == n2), "move assigned");
      c = z;
      vc_assert((c(i) == p) & (c.size() == n2) & (z(i) == p), "assigned to a constant view");
      c = std::move(z);
      vc_assert((z.size() == 0) & (z() == nullptr) & (c(i) == p) & (c.size() == n2), "moved to a constant view");
      View<const T> d(std::move(x));
      vc_assert((x.size() == 0) & (x() == nullptr) & (d(i) == p) & (d.size() == n2), "constructed by moving");
    }
    vc_assert((c(i) == p) & vc_alive(p), "the last view keeps the memory alive");
    vc_assert(*(const signed char*) c(i) == 42, "with its contents");
  }
  vc_assert(vc_live_heap() == heap, "released with the last view");
}
ALL_TYPES(view_sub)

template <class T> static void view_empty() {
  const long n = any_size("size"), o = any_size("offset");
  vc_assume(o <= n);
  const long heap = vc_live_heap();
  vc_cover("any");
  {
    View<T> v;
    vc_assert((v.size() == 0) & (v() == nullptr), "default view");
    View<T> w(n), s(w, o, 0), t(s, 0, 0);
    vc_assert((w.size() == n) & ((w() == nullptr) == (n == 0)), "memory only for elements");
    vc_assert((s.size() == 0) & (s() == nullptr) & (t.size() == 0) & (t() == nullptr), "empty subviews");
    View<const T> c(w, o, 0);
    vc_assert((c.size() == 0) & (c() == nullptr), "empty constant subview");
    w = View<T>();
    vc_assert(vc_live_heap() == heap || !vc_verifying(), "empty views do not keep memory");
    View<T> z(0), zs(z, 0, 0);
    vc_assert((z.size() == 0) & (z() == nullptr) & (zs() == nullptr), "view of no elements");
  }
  vc_assert(vc_live_heap() == heap, "released");
}
ALL_TYPES(view_empty)

template <class T> static void view_user() {
  const long n = any_size("size", 1), o = any_size("offset"), m = any_size("sub_size"), i = any_size("index");
  vc_assume((o + m <= n) & (i < m));
  T* u = (T*) vc_alloc(n * sizeof(T), "user memory");
  const long heap = vc_live_heap();
  vc_cover("any");
  {
    View<T> v(u, n), s(v, o, m);
    vc_assert((v.size() == n) & (v() == u) & (v(i) == u + i) & (s(i) == u + o + i) & (s.size() == m), "elements of the memory given");
    View<const T> c(u, n), d(v, o, m);
    vc_assert((c() == u) & (d(i) == u + o + i), "constant view");
    View<T> z((T*) nullptr, 0);
    vc_assert((z() == nullptr) & (z.size() == 0), "no memory");
    View<T> e(u, 0);
    vc_assert((e() == nullptr) & (e.size() == 0), "no elements");
  }
  vc_assert(vc_alive(u), "memory of the user is never released");
  vc_assert(vc_live_heap() == heap, "nothing else is left");
}
ALL_TYPES(view_user)

// subviews that do not fit are rejected
template <class T> static void view_exceeds() {
  const long n = any_size("size"), o = any_size("offset"), m = any_size("sub_size");
  vc_assume(o + m > n);
  View<T> v(n);
  vc_cover("any");
  const bool c = vc_any_bool("constant");
  vc_split(c);
  vc_allow_abort(true);
  if (c)
    View<const T> s(v, o, m);
  else
    View<T> s(v, o, m);
  vc_unreachable("a subview that exceeds its view is rejected");
}
ALL_TYPES(view_exceeds)
