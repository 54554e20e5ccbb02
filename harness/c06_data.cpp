//@property: C06
//@assume: element type instantiated with a 64-bit trivially copyable type; extents below 2^24 so that byte offsets stay below 2^63
//@assume: source and destination storage do not overlap (as the interface requires)
// Data descriptors, strided copies and temporary buffers.
#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include "vc.h"
using namespace dlaf;
using namespace dlaf::common;
using D = DataDescriptor<long>;
using DC = DataDescriptor<const long>;
static const long K = 1L << 24;

// offset (in elements) of logical element i of a layout (blocks of bs elements, st apart)
static long addr(long i, long bs, long st) { return bs > 0 ? (i / bs) * st + i % bs : 0; }

VC_PROOF(describe, "") {
  long nb = vc_range("nblocks", 0, K), bs = vc_range("blocksize", 0, K), st = vc_range("stride", 0, K);
  long buf[1];
  D d(buf, nb, bs, st);
  vc_cover("any");
  vc_assert(d.data() == buf && data_pointer(d) == buf, "pointer kept");
  vc_assert(d.count() == nb * bs, "number of elements");
  vc_assert((data_count(d) == d.count()) & (data_nblocks(d) == d.nblocks()) & (data_blocksize(d) == d.blocksize()) & (data_stride(d) == d.stride()) & (data_iscontiguous(d) == d.is_contiguous()), "free accessors agree");
  vc_assert(d.nblocks() * d.blocksize() == nb * bs, "blocks cover the elements");
  long i = vc_range("i", 0, 1L << 50);
  vc_assume(i < nb * bs);
  vc_cover("non empty");
  long o = d.is_contiguous() ? i : addr(i, d.blocksize(), d.stride());
  vc_assert(o == addr(i, bs, nb == 1 ? 0 : st), "every element keeps its position");
  vc_assert(d.is_contiguous() == ((nb == 1) | (st == bs)), "contiguous iff a single block or blocks back to back");
  D e(buf, nb, bs, st);
  vc_assert((d == e) & !(d != e), "equality");
  DC c(d);
  vc_assert(c.data() == buf && c.nblocks() == d.nblocks() && c.blocksize() == d.blocksize() && c.stride() == d.stride() && c.is_contiguous() == d.is_contiguous(), "read-only view describes the same elements");
}
VC_PROOF(describe_contiguous, "") {
  long n = vc_range("n", 0, K);
  long buf[1];
  D d(buf, n);
  vc_cover("any");
  vc_assert((d.count() == n) & (d.blocksize() == n) & (d.nblocks() == 1) & d.is_contiguous(), "single block");
  auto m = make_data(buf, n);
  vc_assert(m == d, "make_data");
  D x;
  vc_assert((x.count() == 0) & (x.data() == nullptr), "default describes nothing");
  long arr[7];
  DataDescriptor<long[7]> a(arr);
  vc_assert((a.count() == 7) & a.is_contiguous() & (a.data() == arr), "array");
}
VC_PROOF(descr_inequality, "") {
  long buf[2];
  long n1 = vc_range("n1", 2, K), n2 = vc_range("n2", 2, K), b1 = vc_range("b1", 1, K), b2 = vc_range("b2", 1, K), s1 = vc_range("s1", 1, K), s2 = vc_range("s2", 1, K);
  vc_assume((s1 > b1) & (s2 > b2));
  bool off = vc_any_bool("offset");
  D d(buf, n1, b1, s1), e(buf + (off ? 1 : 0), n2, b2, s2);
  vc_cover("any");
  vc_assert((d == e) == ((n1 == n2) & (b1 == b2) & (s1 == s2) & !off), "equal only for the same layout of the same memory");
  vc_assert((d != e) == !(d == e), "inequality");
}

// ---- buffers
VC_PROOF(buffer, "") {
  long n = vc_range("n", 0, 1L << 12);
  long h0 = vc_live_heap();
  {
    Buffer<long> b(n);
    vc_cover("any");
    vc_assert((b.count() == n) & b.is_contiguous() & (bool) b, "buffer of n elements");
    if (n > 0) {
      long i = vc_range("i", 0, 1L << 12);
      vc_assume(i < n);
      b.data()[i] = 42;
      vc_assert(b.data()[i] == 42, "storage usable");
    }
    long* p = b.data();
    Buffer<long> c;
    vc_assert(!c && c.count() == 0, "empty by default");
    c = std::move(b);
    vc_assert(c.data() == p && c.count() == n && (bool) c && !b, "move hands the storage over");
  }
  vc_assert(vc_live_heap() == h0, "storage released exactly once");
}
VC_PROOF(make_contig, "") {
  long nb = vc_range("nblocks", 1, 64), bs = vc_range("blocksize", 1, 64), st = vc_range("stride", 1, 64);
  vc_assume(st >= bs);
  long buf[1];
  D d(buf, nb, bs, st);
  long h0 = vc_live_heap();
  {
    Buffer<long> b;
    auto r = make_contiguous(d, b);
    vc_cover("any");
    vc_assert(r.is_contiguous() & (r.count() == nb * bs) & (data_blocksize(r) == nb * bs), "a contiguous description of as many elements");
    if ((nb == 1) | (st == bs)) {
      vc_cover("contiguous input");
      vc_assert(!b && r.data() == buf, "contiguous data is used in place");
    }
    else {
      vc_cover("strided input");
      vc_assert((bool) b && r.data() == b.data() && b.data() != buf && b.count() == nb * bs, "strided data goes through a buffer of its size");
    }
    auto t = create_temporary_buffer(d);
    vc_assert(t.count() == nb * bs && t.is_contiguous() && (bool) t, "temporary buffer has room for every element");
  }
  vc_assert(vc_live_heap() == h0, "storage released exactly once");
}
