//@property: C09
//@assume: MPI_Reduce, MPI_Allreduce, MPI_Send, MPI_Recv behave as in the MPI standard (the ghost functions below); element type long; input and output storage do not overlap
//@assume: strided copies behave as their contract says (contract proved in C06)
//@ldflags: -lmpi
// Blocking collectives on (strided) data.
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/reduce.h>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/datatypes.cpp>
#include "mpi_comm.h"
using namespace dlaf;
using namespace dlaf::common;
using namespace dlaf::comm;
using D = DataDescriptor<long>;
using DC = DataDescriptor<const long>;
static const long K = 1L << 15;

// ---- what the calls see: one arbitrary logical element g_i, one arbitrary offset g_e of the output storage
static long g_i, g_e, g_n;          // logical element, offset in the output storage, number of elements
static long g_inq, g_inr, g_outq, g_outr;  // block and position in the block of element g_i in input and output
static long g_q, g_r;               // block and position in the block of offset g_e
static long* g_out;
static long g_res, g_sent;
static const void *g_sendbuf, *g_recvbuf;
static int g_calls, g_root, g_count, g_peer;
static MPI_Op g_op;
static MPI_Datatype g_dt;
static MPI_Comm g_mcomm;

static void record(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  ghost_live(c);
  ++g_calls;
  vc_assert(g_calls == 1, "one collective call");
  g_sendbuf = s; g_recvbuf = r; g_count = count; g_dt = t; g_op = op; g_root = root; g_mcomm = c;
}
static void result(void* r, int count) {
  long* p = (long*) r;
  vc_havoc(p, (long) count * 8, "reduced");
  if (!vc_verifying())
    for (long k = 0; k < count; ++k) p[k] = 1000 + k;
  g_res = p[g_i];
}
extern "C" {
int MPI_Reduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  record(s, r, count, t, op, root, c);
  vc_assert(count == g_n, "every element takes part");
  int me = g_comm[comm_index(c)].rank;
  g_sent = s == MPI_IN_PLACE ? ((const long*) r)[g_i] : ((const long*) s)[g_i];
  vc_assert(s != MPI_IN_PLACE || me == root, "in place only at the root");
  if (me == root) result(r, count);
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  record(s, r, count, t, op, -1, c);
  vc_assert(count == g_n, "every element takes part");
  g_sent = s == MPI_IN_PLACE ? ((const long*) r)[g_i] : ((const long*) s)[g_i];
  result(r, count);
  return MPI_SUCCESS;
}
int MPI_Send(const void* s, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  record(s, nullptr, count, t, MPI_OP_NULL, dest, c);
  g_peer = tag;
  return MPI_SUCCESS;
}
int MPI_Recv(void* r, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status*) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  record(nullptr, r, count, t, MPI_OP_NULL, src, c);
  g_peer = tag;
  return MPI_SUCCESS;
}
static long g_tcount, g_tbl, g_tst, g_tlive;
static MPI_Datatype g_told;
static char g_tobj[8];
int MPI_Type_vector(int count, int bl, int st, MPI_Datatype o, MPI_Datatype* n) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  g_tcount = count; g_tbl = bl; g_tst = st; g_told = o; g_tlive = 1;
  *n = (MPI_Datatype) (void*) g_tobj;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype*) { int e = ghost_result(); if (e == MPI_SUCCESS) ++g_tlive; return e; }
int MPI_Type_free(MPI_Datatype* t) { int e = ghost_result(); if (e != MPI_SUCCESS) return e; g_tlive = 0; *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
}

// ---- contract of the strided copy (proved in C06), at the arbitrary logical element g_i and the arbitrary offset g_e
template <class T>
static long at(const T& d) {
  // position of logical element g_i: g_i itself, or through its block decomposition
  if (data_iscontiguous(d)) return g_i;
  bool in = data_blocksize(d) * g_inq + g_inr == g_i && g_inr < data_blocksize(d);
  return in ? g_inq * data_stride(d) + g_inr : g_outq * data_stride(d) + g_outr;
}
template <class S, class T>
static void c_copy(const S& s, const T& d) {
  vc_requires(data_count(s) == data_count(d), "copy: same number of elements");
  vc_requires(data_count(s) == g_n, "copy: every element");
  long* dp = data_pointer(d);
  long v = data_pointer(s)[at(s)];
  bool user = dp == g_out;
  long old = user ? g_out[g_e] : 0;
  long ext = data_iscontiguous(d) ? data_count(d) : (data_nblocks(d) - 1) * data_stride(d) + data_blocksize(d);
  vc_havoc(dp, ext * 8, "copied");
  long a = at(d);
  vc_ensures(dp[a] == v, "copied element");
  if (user) {
    bool gap = data_iscontiguous(d) ? g_e >= data_count(d) : !(g_r < data_blocksize(d));
    if (gap) vc_ensures(dp[g_e] == old, "gap untouched");
  }
}
VC_CONTRACT("copy_1", "void dlaf::common::copy<dlaf::common::DataDescriptor<long const>, dlaf::common::DataDescriptor<long>>(*", (&c_copy<DC, D>))
VC_CONTRACT("copy_2", "void dlaf::common::copy<dlaf::common::DataDescriptor<long const>, dlaf::common::Buffer<long>>(*", (&c_copy<DC, Buffer<long>>))
VC_CONTRACT("copy_3", "void dlaf::common::copy<dlaf::common::DataDescriptor<long>, dlaf::common::Buffer<long>>(*", (&c_copy<D, Buffer<long>>))
VC_CONTRACT("copy_4", "void dlaf::common::copy<dlaf::common::Buffer<long>, dlaf::common::DataDescriptor<long>>(*", (&c_copy<Buffer<long>, D>))
VC_CONTRACT("copy_5", "void dlaf::common::copy<dlaf::common::DataDescriptor<long>, dlaf::common::DataDescriptor<long>>(*", (&c_copy<D, D>))

struct Lay { long nb, bs, st; long ext() const { return (nb - 1) * st + bs; } };
static Lay any_layout(const char* cont, const char* nb, const char* bs, const char* st) {
  Lay l;
  if (vc_any_bool(cont)) { l = {1, vc_range(nb, 1, 1L << 30), 0}; l.st = l.bs; }
  else { l = {vc_range(nb, 2, K), vc_range(bs, 1, K), vc_range(st, 2, K)}; vc_assume(l.st > l.bs); }
  if (!vc_verifying()) vc_assume(l.ext() < 20000);
  return l;
}
static long* g_inp;
static long g_oldout, g_want;
static Lay li, lo;
// operands: arbitrary layouts with the same number of elements, contents arbitrary
static void operands(bool inplace) {
  ghost_reset();
  g_calls = 0; g_tlive = 0;
  li = any_layout("in_contiguous", "in_nb", "in_bs", "in_st");
  if (inplace) lo = li;
  else if (!vc_verifying() && vc_any_bool("same shape")) lo = {li.nb * li.bs, 1, 2};
  else lo = any_layout("out_contiguous", "out_nb", "out_bs", "out_st");
  g_n = li.nb * li.bs;
  vc_assume(g_n == lo.nb * lo.bs);
  g_inp = (long*) vc_alloc(li.ext() * 8, "in");
  g_out = inplace ? g_inp : (long*) vc_alloc(lo.ext() * 8, "out");
  // element g_i
  g_inq = vc_range("in_block", 0, K); g_inr = vc_range("in_pos", 0, 1L << 30);
  vc_assume((g_inq < li.nb) & (g_inr < li.bs));
  g_i = g_inq * li.bs + g_inr;
  if (inplace) { g_outq = g_inq; g_outr = g_inr; }
  else {
    g_outq = vc_range("out_block", 0, K); g_outr = vc_range("out_pos", 0, 1L << 30);
    if (!vc_verifying()) { g_outq = g_i / lo.bs; g_outr = g_i % lo.bs; }
    vc_assume((g_outq < lo.nb) & (g_outr < lo.bs) & (g_outq * lo.bs + g_outr == g_i));
  }
  vc_lemma((g_i >= 0) & (g_i < g_n));
  // offset g_e
  g_q = vc_range("e_block", 0, K); g_r = vc_range("e_pos", 0, 1L << 30);
  vc_assume((g_q < lo.nb) & (g_r < lo.st) & ((g_q < lo.nb - 1) | (g_r < lo.bs)));
  g_e = g_q * lo.st + g_r;
  vc_lemma((g_e >= 0) & (g_e < lo.ext()));
  vc_lemma(g_inq * li.st + g_inr < li.ext());
  vc_lemma(g_outq * lo.st + g_outr < lo.ext());
  g_oldout = g_out[g_e];
  g_want = g_inp[g_inq * li.st + g_inr];
}
static DC in_data() { return DC(g_inp, li.nb, li.bs, li.st); }
static D out_data() { return D(g_out, lo.nb, lo.bs, lo.st); }
static void called(MPI_Op op, MPI_Comm c) {
  vc_assert(g_calls == 1, "exactly one collective call");
  vc_assert((g_op == op) & (g_mcomm == c) & (g_dt == MPI_LONG), "operation, communicator and element type are those asked for");
  vc_assert(g_sent == g_want, "every element of the input is contributed");
}
static void untouched() {
  if (!(g_r < lo.bs))
    vc_assert(g_out[g_e] == g_oldout, "memory between the blocks of the output is untouched");
}
static void received() {
  vc_assert(g_out[g_outq * lo.st + g_outr] == g_res, "every element of the output is the reduction of that element");
  untouched();
}
VC_PROOF(all_reduce, "") {
  operands(false);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size > 1);
  long heap = vc_live_heap();
  {
    Communicator c(h);
    sync::allReduce(c, MPI_SUM, in_data(), out_data());
    vc_cover("reduced");
    called(MPI_SUM, h);
    received();
    vc_assert(g_inp[g_inq * li.st + g_inr] == g_want, "the input is not modified");
  }
  vc_assert(vc_live_heap() == heap, "temporaries released");
}
VC_PROOF(all_reduce_in_place, "") {
  operands(true);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size > 1);
  long heap = vc_live_heap();
  {
    Communicator c(h);
    sync::allReduceInPlace(c, MPI_MAX, out_data());
    vc_cover("reduced");
    called(MPI_MAX, h);
    vc_assert(g_sendbuf == MPI_IN_PLACE, "in place");
    received();
  }
  vc_assert(vc_live_heap() == heap, "temporaries released");
}
VC_PROOF(single_rank, "") {
  operands(false);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size == 1);
  {
    Communicator c(h);
    if (vc_any_bool("all")) sync::allReduce(c, MPI_SUM, in_data(), out_data());
    else sync::reduce(0, c, MPI_SUM, in_data(), out_data());
    vc_cover("reduced");
    g_res = g_want;
    received();
  }
}
VC_PROOF(single_rank_in_place, "") {
  operands(true);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size == 1);
  {
    Communicator c(h);
    if (vc_any_bool("all")) sync::allReduceInPlace(c, MPI_SUM, out_data());
    else sync::reduceInPlace(0, c, MPI_SUM, out_data());
    vc_cover("reduced");
    vc_assert(g_out[g_e] == g_oldout, "the reduction over one rank is the identity");
  }
}
VC_PROOF(reduce_root, "") {
  operands(false);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size > 1);
  long heap = vc_live_heap();
  {
    Communicator c(h);
    sync::reduce(g_comm[1].rank, c, MPI_SUM, in_data(), out_data());
    vc_cover("reduced");
    called(MPI_SUM, h);
    vc_assert(g_root == g_comm[1].rank, "root");
    received();
    vc_assert(g_inp[g_inq * li.st + g_inr] == g_want, "the input is not modified");
  }
  vc_assert(vc_live_heap() == heap, "temporaries released");
}
VC_PROOF(reduce_other, "") {
  operands(false);
  MPI_Comm h = any_comm();
  int root = (int) vc_range("root", 0, 2147483646);
  vc_assume((g_comm[1].size > 1) & (root < g_comm[1].size) & (root != g_comm[1].rank));
  long heap = vc_live_heap();
  {
    Communicator c(h);
    sync::reduce(root, c, MPI_SUM, in_data(), out_data());
    vc_cover("reduced");
    called(MPI_SUM, h);
    vc_assert(g_root == root, "root");
    vc_assert(g_out[g_e] == g_oldout, "the output is only written at the root");
    vc_assert(g_inp[g_inq * li.st + g_inr] == g_want, "the input is not modified");
  }
  vc_assert(vc_live_heap() == heap, "temporaries released");
}
VC_PROOF(reduce_in_place, "") {
  operands(true);
  MPI_Comm h = any_comm();
  int root = (int) vc_range("root", 0, 2147483646);
  vc_assume((g_comm[1].size > 1) & (root < g_comm[1].size));
  long heap = vc_live_heap();
  {
    Communicator c(h);
    sync::reduceInPlace(root, c, MPI_SUM, out_data());
    called(MPI_SUM, h);
    vc_assert(g_root == root, "root");
    if (root == g_comm[1].rank) {
      vc_cover("root");
      vc_assert(g_sendbuf == MPI_IN_PLACE, "in place at the root");
      received();
    }
    else {
      vc_cover("other");
      vc_assert(g_sendbuf != MPI_IN_PLACE, "plain contribution elsewhere");
      vc_assert(g_out[g_e] == g_oldout, "the operand is only written at the root");
    }
  }
  vc_assert(vc_live_heap() == heap, "temporaries released");
}
VC_PROOF(bad_root, "") {
  operands(true);
  MPI_Comm h = any_comm();
  int root = vc_any_i32("root");
  vc_assume((root < 0) | (root >= g_comm[1].size));
  vc_allow_abort(true);
  vc_cover("any");
  Communicator c(h);
  sync::reduceInPlace(root, c, MPI_SUM, out_data());
  vc_unreachable("a root outside of the communicator is rejected");
}
VC_PROOF(bad_root2, "") {
  operands(false);
  MPI_Comm h = any_comm();
  int root = vc_any_i32("root");
  vc_assume((root < 0) | (root >= g_comm[1].size));
  vc_allow_abort(true);
  vc_cover("any");
  Communicator c(h);
  sync::reduce(root, c, MPI_SUM, in_data(), out_data());
  vc_unreachable("a root outside of the communicator is rejected");
}
VC_PROOF(point_to_point, "") {
  operands(false);
  MPI_Comm h = any_comm();
  int peer = (int) vc_range("peer", 0, 2147483646);
  bool snd = vc_any_bool("send");
  {
    Communicator c(h);
    if (snd) sync::send_to(peer, c, in_data());
    else sync::receive_from(peer, c, out_data());
    vc_assert((g_calls == 1) & (g_root == peer) & (g_mcomm == h), "one call, to the peer asked for");
    vc_assert(snd ? (g_sendbuf == g_inp) & (g_recvbuf == nullptr) : (g_recvbuf == g_out) & (g_sendbuf == nullptr), "the data itself is transferred");
    vc_assert(g_peer == 0, "sender and receiver agree on the tag");
    Lay l = snd ? li : lo;
    if (l.nb == 1) {
      vc_cover("contiguous");
      vc_assert((g_count == g_n) & (g_dt == MPI_LONG), "all the elements");
    }
    else {
      vc_cover("strided");
      vc_assert((g_count == 1) & (g_tcount == l.nb) & (g_tbl == l.bs) & (g_tst == l.st) & (g_told == MPI_LONG), "all the elements");
    }
  }
  vc_assert(g_tlive == 0, "datatype released");
}
VC_PROOF(mpi_failures, "") {
  operands(true);
  MPI_Comm h = any_comm();
  vc_assume(g_comm[1].size > 1);
  {
    Communicator c(h);
    g_mpi_may_fail = true;
    long which = vc_range("which", 0, 2);
    if (which == 0) sync::allReduceInPlace(c, MPI_MAX, out_data());
    if (which == 1) sync::reduceInPlace(0, c, MPI_MAX, out_data());
    if (which == 2) sync::send_to(0, c, in_data());
    vc_cover("no failure");
    vc_assert(!g_mpi_failed, "a failed MPI call is never ignored");
  }
}
