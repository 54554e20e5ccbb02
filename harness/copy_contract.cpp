//@property: C06 C09
//@assume: element type instantiated with a 64-bit trivially copyable type; extents below 2^24 so that byte offsets stay below 2^63
//@assume: source and destination storage do not overlap (as the interface requires)
// Contract of the strided copy.
#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include "vc.h"
using namespace dlaf;
using namespace dlaf::common;
using D = DataDescriptor<long>;
using DC = DataDescriptor<const long>;
static const long K = 1L << 24;

// offset (in elements) of logical element i of a layout (blocks of bs elements, st apart)
static long addr(long i, long bs, long st) { return bs > 0 ? (i / bs) * st + i % bs : 0; }

// ---- copy
struct Lay { long nb, bs, st; };
static long* g_dst;
static long g_e, g_old, g_want, g_ie, g_blk;  // arbitrary destination offset, its old value, wanted value, logical index, elements per iteration
static bool g_in;
static bool copied(long k) {
  bool done = g_in & (g_ie < k * g_blk);
  return g_dst[g_e] == (done ? g_want : g_old);
}
template <bool ContS, bool ContD, bool BufS = false, bool BufD = false>
static void copy_proof() {
  long n;
  Lay s, d;
  if (ContS) { s = {1, vc_range("s_n", 0, K), 0}; }
  else { s.nb = vc_range("s_nb", 2, K); s.bs = vc_range("s_bs", 1, K); s.st = vc_range("s_st", 1, K); vc_assume(s.st > s.bs); }
  if (ContD) { d = {1, ContS ? s.bs : vc_range("d_n", 0, K), 0}; }
  else { d.nb = vc_range("d_nb", 2, K); d.bs = vc_range("d_bs", 1, K); d.st = vc_range("d_st", 1, K); vc_assume(d.st > d.bs); }
  vc_assume(s.nb * s.bs == d.nb * d.bs);
  n = s.nb * s.bs;
  long ssz = (s.nb - 1) * s.st + s.bs, dsz = (d.nb - 1) * d.st + d.bs;
  if (!vc_verifying()) vc_assume((ssz < 100000) & (dsz < 100000));
  Buffer<long> bs, bd;
  if (BufS) bs = Buffer<long>(ssz);
  if (BufD) bd = Buffer<long>(dsz);
  long* src = BufS ? bs.data() : (long*) vc_alloc(ssz * 8, "src");
  if (BufS) vc_havoc(src, ssz * 8, "src");
  g_dst = BufD ? bd.data() : (long*) vc_alloc(dsz * 8, "dst");
  // arbitrary destination offset, decomposed
  long q = vc_range("e_block", 0, K), r = vc_range("e_in_block", 0, K);
  vc_assume(ContD ? (q == 0) & (r < d.bs) : (q < d.nb) & (r < d.st) & ((q < d.nb - 1) | (r < d.bs)));
  g_e = q * d.st + r;
  vc_lemma((g_e >= 0) & (g_e < dsz));
  g_old = g_dst[g_e];
  g_in = ContD ? true : r < d.bs;
  g_ie = q * d.bs + r;
  g_blk = ContD ? s.bs : (ContS ? d.bs : 1);
  if (g_in) {
    vc_lemma((g_ie >= 0) & (g_ie < n));
    // source position of that logical element
    long sq = ContS ? 0 : g_ie / s.bs, sr = ContS ? g_ie : g_ie % s.bs;
    vc_lemma((sq >= 0) & (sq < s.nb));
    long so = sq * s.st + sr;
    vc_lemma((so >= 0) & (so < ssz));
    g_want = src[so];
  }
  vc_loop_inv("common::copy<", -1, &copied);
  vc_cover("before");
  DC ds = ContS ? DC(src, s.bs) : DC(src, s.nb, s.bs, s.st);
  D dd = ContD ? D(g_dst, d.bs) : D(g_dst, d.nb, d.bs, d.st);
  if constexpr (BufS) copy(bs, dd);
  else if constexpr (BufD) copy(ds, bd);
  else copy(ds, dd);
  vc_cover("after");
  if (g_in)
    vc_assert(g_dst[g_e] == g_want, "every destination element receives the corresponding source element");
  else
    vc_assert(g_dst[g_e] == g_old, "memory between the blocks is untouched");
}
VC_PROOF(copy_cc, "") { copy_proof<true, true>(); }
VC_PROOF(copy_sc, "") { copy_proof<false, true>(); }
VC_PROOF(copy_cs, "") { copy_proof<true, false>(); }
VC_PROOF(copy_ss, "") { copy_proof<false, false>(); }

VC_PROOF(copy_from_buffer, "") { copy_proof<true, false, true, false>(); }
VC_PROOF(copy_from_buffer_cc, "") { copy_proof<true, true, true, false>(); }
VC_PROOF(copy_to_buffer, "") { copy_proof<false, true, false, true>(); }
VC_PROOF(copy_to_buffer_cc, "") { copy_proof<true, true, false, true>(); }
