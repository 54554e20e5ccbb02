//@property: C08
//@assume: the MPI communicator calls behave as in the MPI standard (harness/mpi_comm.h); std::shared_ptr is executed, not assumed
//@ldflags: -lmpi
// Communicator handles: identity, rank and size, ownership.
#include <dlaf/communication/communicator.h>
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <optional>
#include "mpi_comm.h"
using namespace dlaf;
using namespace dlaf::comm;
static void describes(const Communicator& c, MPI_Comm h) {
  int i = comm_index(h);
  vc_assert((MPI_Comm) c == h, "the handle is the wrapped communicator");
  vc_assert(*(&c) == h, "the address is that of the handle");
  vc_assert((c.rank() == g_comm[i].rank) & (c.size() == g_comm[i].size), "rank and size are those of the communicator");
}
VC_PROOF(null, "") {
  ghost_reset();
  {
    Communicator c, d(c);
    vc_cover("any");
    vc_assert((MPI_Comm) c == MPI_COMM_NULL && (MPI_Comm) d == MPI_COMM_NULL, "null handle");
    vc_assert((c.size() == 0) & (c.rank() == MPI_UNDEFINED), "no ranks");
  }
  vc_assert(g_nfreed == 0, "nothing released");
  vc_allow_abort(true);
  Communicator e(MPI_COMM_NULL);
  vc_unreachable("the null communicator cannot be wrapped explicitly");
}
VC_PROOF(wrap, "") {
  ghost_reset();
  MPI_Comm h = vc_any_bool("world") ? MPI_COMM_WORLD : any_comm();
  long heap = vc_live_heap();
  {
    Communicator c(h);
    vc_cover("any");
    describes(c, h);
    Communicator d(c);
    describes(d, h);
    Communicator e;
    e = d;
    describes(e, h);
    Communicator f(std::move(e));
    describes(f, h);
    describes(c, h);
  }
  vc_assert(g_nfreed == 0, "a wrapped communicator still belongs to the user");
  vc_assert(vc_live_heap() == heap, "no memory left behind");
}
VC_PROOF(managed, "") {
  ghost_reset();
  MPI_Comm h = any_comm();
  long heap = vc_live_heap();
  {
    Communicator c = make_communicator_managed(h);
    vc_cover("any");
    describes(c, h);
    {
      Communicator d(c), e;
      e = d;
      describes(e, h);
    }
    vc_assert(g_nfreed == 0, "alive as long as one handle refers to it");
    Communicator k;
    k = std::move(c);
    describes(k, h);
    Communicator& s = k;
    k = s;
    describes(k, h);
    vc_assert(g_nfreed == 0, "alive as long as one handle refers to it");
    if (vc_any_bool("replaced")) {
      vc_cover("replaced");
      k = Communicator();
      vc_assert(g_nfreed == 1, "released with its last handle");
    }
  }
  vc_assert(g_nfreed == 1 && g_comm[1].freed, "released exactly once");
  vc_assert(vc_live_heap() == heap, "no memory left behind");
}
// order of destruction does not matter
VC_PROOF(managed_orders, "") {
  ghost_reset();
  MPI_Comm h = any_comm();
  {
    std::optional<Communicator> a(make_communicator_managed(h)), b, c;
    b = a;
    c.emplace(*b);
    long first = vc_range("first", 0, 2), second = vc_range("second", 0, 2);
    vc_assume(first != second);
    auto kill = [&](long i) { (i == 0 ? a : (i == 1 ? b : c)).reset(); };
    kill(first);
    vc_assert(g_nfreed == 0, "alive after the first");
    kill(second);
    vc_cover("two gone");
    vc_assert(g_nfreed == 0, "alive after the second");
    long last = 3 - first - second;
    describes(*(last == 0 ? a : (last == 1 ? b : c)), h);
    kill(last);
    vc_assert(g_nfreed == 1, "released with the last");
  }
  vc_assert(g_nfreed == 1, "released exactly once");
}
VC_PROOF(not_manageable, "") {
  ghost_reset();
  vc_allow_abort(true);
  bool null = vc_any_bool("null");
  vc_cover("any");
  {
    Communicator c = make_communicator_managed(null ? MPI_COMM_NULL : MPI_COMM_WORLD);
    vc_unreachable("the world and null communicators are never managed");
  }
}
VC_PROOF(clone, "") {
  ghost_reset();
  MPI_Comm h = vc_any_bool("world") ? MPI_COMM_WORLD : any_comm();
  int before = g_ncomms;
  {
    Communicator c(h);
    {
      Communicator d = c.clone();
      vc_cover("any");
      vc_assert((g_ncomms == before + 1) & ((MPI_Comm) d != h), "a clone is a new communicator");
      describes(d, comm_handle(before));
      vc_assert((d.size() == c.size()) & (d.rank() == c.rank()), "a clone has the ranks of the original");
    }
    vc_assert(g_nfreed == 1 && g_comm[before].freed, "a clone is released with its last handle");
    describes(c, h);
  }
  vc_assert(g_nfreed == 1, "the original is not released");
}
VC_PROOF(mpi_failures, "") {
  ghost_reset();
  MPI_Comm h = any_comm();
  g_mpi_may_fail = true;
  {
    Communicator c = make_communicator_managed(h);
    vc_assert(!g_mpi_failed, "construction does not survive a failed MPI call");
    vc_cover("no failure");
    Communicator d = c.clone();
    vc_assert(!g_mpi_failed, "cloning does not survive a failed MPI call");
    describes(d, comm_handle(2));
  }
  vc_assert(!g_mpi_failed, "a failed MPI call is never ignored");
  vc_assert(g_nfreed == 2, "released");
}
