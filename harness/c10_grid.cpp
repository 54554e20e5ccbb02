//@property: C10
//@stubs: 1
//@ldflags: -lmpi
//@assume: the MPI communicator calls behave as in the MPI standard (harness/mpi_comm.h); MPI_Comm_split orders the members of a new communicator by key, then by rank
//@assume: at most 2 pipelines per communicator of a grid (bounded); grids with positive numbers of rows and columns
// CommunicatorGrid: who is where, and which communicators connect the processes.
#define VC_MAX_COMMS 24
#include <communication/communicator_impl.cpp>
#include <communication/communicator.cpp>
#include <communication/communicator_grid.cpp>
#include "mpi_comm.h"
using namespace dlaf;
using namespace dlaf::comm;

// ghost record of the MPI_Comm_split calls made by the process being looked at
struct Split { int color, key; MPI_Comm from, out; };
static Split g_split[8];
static int g_nsplit;
extern "C" int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  ghost_live(c);
  vc_assert((color >= 0) | (color == MPI_UNDEFINED), "valid color");
  vc_assert(g_nsplit < 8, "ghost table large enough");
  MPI_Comm o = MPI_COMM_NULL;
  if (color != MPI_UNDEFINED)
    o = any_comm();
  g_split[g_nsplit++] = {color, key, c, o};
  *out = o;
  return MPI_SUCCESS;
}
static int split_of(MPI_Comm c) {
  for (int i = 0; i < g_nsplit; ++i)
    if (g_split[i].out == c)
      return i;
  return -1;
}

static long lim(long v, long nat) { return vc_verifying() ? v : nat; }

struct Who { int R, C, size; bool rowmajor; };
static Who any_grid() {
  Who g;
  g.R = (int) vc_range("rows", 1, lim(2147483647, 5));
  g.C = (int) vc_range("cols", 1, lim(2147483647, 5));
  g.size = (int) vc_range("comm_size", 1, lim(2147483647, 30));
  g.rowmajor = vc_any_bool("row_major");
  return g;
}
struct View {
  bool in;
  Split s[3];  // full, row, col
  int which[3], nsplit;
  Index2D pos;
  int full;
};
// the grid as seen by the process with the given rank
static View look(const Who& w, int rank, bool in, int a, int b) {
  View v;
  g_comm[0] = {w.size, rank, false};
  g_nsplit = 0;
  {
    CommunicatorGrid g(Communicator(MPI_COMM_WORLD), w.R, w.C, w.rowmajor ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 1);
    v.in = in;
    v.nsplit = g_nsplit;
    for (int i = 0; i < g_nsplit; ++i)
      vc_assert(g_split[i].from == MPI_COMM_WORLD, "the communicators are made from the given one");
    if (in) {
      v.pos = g.rank();
      vc_assert(v.pos == Index2D(a, b), "position of the process in the grid");
      vc_assert(g.size() == Size2D(w.R, w.C), "size of the grid");
      v.full = g.rankFullCommunicator(g.rank());
      MPI_Comm h[3] = {g.fullCommunicator(), g.rowCommunicator(), g.colCommunicator()};
      vc_assert((&g.subCommunicator(Coord::Row) == &g.rowCommunicator()) & (&g.subCommunicator(Coord::Col) == &g.colCommunicator()), "communicator of a coordinate");
      for (int i = 0; i < 3; ++i) {
        v.which[i] = split_of(h[i]);
        vc_assert(v.which[i] >= 0, "every communicator of the grid is one of the new ones");
        v.s[i] = g_split[v.which[i]];
      }
      vc_assert((v.which[0] != v.which[1]) & (v.which[0] != v.which[2]) & (v.which[1] != v.which[2]), "three different communicators");
    }
    else {
      vc_assert(g.size() == Size2D(0, 0), "a process outside has no grid");
      vc_assert((MPI_Comm) g.fullCommunicator() == MPI_COMM_NULL && (MPI_Comm) g.rowCommunicator() == MPI_COMM_NULL && (MPI_Comm) g.colCommunicator() == MPI_COMM_NULL, "and no communicators");
      for (int i = 0; i < g_nsplit; ++i)
        vc_assert(g_split[i].color == MPI_UNDEFINED, "and takes part in none");
    }
  }
  return v;
}
static int rank_of(const Who& w, long a, long b) { return (int) (w.rowmajor ? a * w.C + b : b * w.R + a); }

// two arbitrary different processes of the grid
VC_PROOF(two_inside, "") {
  ghost_reset();
  Who w = any_grid();
  const long a = vc_range("row_1", 0, lim(2147483647, 4)), b = vc_range("col_1", 0, lim(2147483647, 4)), c = vc_range("row_2", 0, lim(2147483647, 4)), d = vc_range("col_2", 0, lim(2147483647, 4));
  vc_assume(((long) w.R * w.C <= w.size) & (a < w.R) & (c < w.R) & (b < w.C) & (d < w.C) & ((a != c) | (b != d)));
  vc_split(w.rowmajor);
  vc_lemma(a * w.C + b < (long) w.R * w.C);
  vc_lemma(b * w.R + a < (long) w.R * w.C);
  vc_lemma(c * w.C + d < (long) w.R * w.C);
  vc_lemma(d * w.R + c < (long) w.R * w.C);
  const int r1 = rank_of(w, a, b), r2 = rank_of(w, c, d);
  vc_assert(r1 != r2, "different positions, different ranks");
  View x = look(w, r1, true, (int) a, (int) b), y = look(w, r2, true, (int) c, (int) d);
  vc_cover("any");
  vc_assert(x.nsplit == y.nsplit, "all processes take part in the same collective calls");
  for (int i = 0; i < 3; ++i)
    vc_assert(x.which[i] == y.which[i], "in the same order");
  vc_assert(x.s[0].color == y.s[0].color, "one communicator connects all processes of the grid");
  vc_assert((0 <= x.full) & (x.full < w.R * w.C) & (x.full != y.full), "ranks in it are a numbering of the positions");
  vc_assert((x.s[0].key < y.s[0].key || (x.s[0].key == y.s[0].key && r1 < r2)) == (x.full < y.full), "members are ordered by rankFullCommunicator");
  vc_assert((x.s[1].color == y.s[1].color) == (a == c), "a row communicator connects the processes of one row");
  if (a == c) {
    vc_cover("same row");
    vc_assert((x.s[1].key < y.s[1].key || (x.s[1].key == y.s[1].key && r1 < r2)) == (b < d), "ordered by column");
  }
  vc_assert((x.s[2].color == y.s[2].color) == (b == d), "a column communicator connects the processes of one column");
  if (b == d) {
    vc_cover("same column");
    vc_assert((x.s[2].key < y.s[2].key || (x.s[2].key == y.s[2].key && r1 < r2)) == (a < c), "ordered by row");
  }
}
VC_PROOF(outside, "") {
  ghost_reset();
  Who w = any_grid();
  const int r = (int) vc_range("rank", 0, lim(2147483646, 29));
  vc_assume(((long) w.R * w.C <= w.size) & (r < w.size) & (r >= (long) w.R * w.C));
  vc_cover("any");
  View x = look(w, r, false, 0, 0);
  View y = look(w, 0, true, 0, 0);
  vc_assert(x.nsplit == y.nsplit, "all processes take part in the same collective calls");
}
VC_PROOF(too_large, "") {
  ghost_reset();
  Who w = any_grid();
  const int r = (int) vc_range("rank", 0, lim(2147483646, 29));
  vc_assume(((long) w.R * w.C > w.size) & (r < w.size));
  vc_cover("any");
  g_comm[0] = {w.size, r, false};
  vc_allow_abort(true);
  CommunicatorGrid g(Communicator(MPI_COMM_WORLD), w.R, w.C, w.rowmajor ? common::Ordering::RowMajor : common::Ordering::ColumnMajor, 1);
  vc_unreachable("a grid with more positions than processes is rejected");
}

// barriers, recorded per communicator
static int g_nbarrier[VC_MAX_COMMS], g_waits, g_posted;
extern "C" int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  ++g_nbarrier[ghost_live(c)];
  ++g_posted;
  *r = reinterpret_cast<MPI_Request>(&g_nbarrier[ghost_live(c)]);
  return MPI_SUCCESS;
}
extern "C" int MPI_Wait(MPI_Request* r, MPI_Status*) {
  ++g_waits;
  *r = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
static void inside_or_outside(const Who& w, int r) {
  vc_assume(((long) w.R * w.C <= w.size) & (r < w.size));
  g_comm[0] = {w.size, r, false};
  g_nsplit = 0;
}
static common::Ordering order(const Who& w) { return w.rowmajor ? common::Ordering::RowMajor : common::Ordering::ColumnMajor; }

template <int n> static void ownership() {
  ghost_reset();
  Who w = any_grid();
  const int r = (int) vc_range("rank", 0, lim(2147483646, 29));
  inside_or_outside(w, r);
  const long heap = vc_live_heap();
  {
    CommunicatorGrid g(Communicator(MPI_COMM_WORLD), w.R, w.C, order(w), n);
    vc_cover("any");
    vc_assert(g_nfreed == 0, "everything is alive with the grid");
    CommunicatorGrid h(std::move(g));
    vc_assert((g_nfreed == 0) & ((r < w.R * w.C) == ((MPI_Comm) h.fullCommunicator() != MPI_COMM_NULL)), "and after a move");
  }
  vc_assert(g_nfreed == g_ncomms - 1, "every communicator made for the grid is released");
  for (int i = 1; i < g_ncomms; ++i)
    vc_assert(g_comm[i].freed, "exactly once");
  vc_assert(!g_comm[0].freed, "the given communicator stays");
  vc_assert(vc_live_heap() == heap, "no memory left behind");
}
VC_PROOF(ownership_1, "") { ownership<1>(); }
VC_PROOF(ownership_2, "") { ownership<2>(); }
VC_PROOF(failures, "") {
  ghost_reset();
  Who w = any_grid();
  const int r = (int) vc_range("rank", 0, lim(2147483646, 29));
  inside_or_outside(w, r);
  Communicator world(MPI_COMM_WORLD);
  g_mpi_may_fail = true;
  CommunicatorGrid g(world, w.R, w.C, order(w), 1);
  g_mpi_may_fail = false;
  vc_cover("no failure");
  vc_assert(!g_mpi_failed, "a failed MPI call is never ignored");
}
template <class P> static int pipe_comm(P p, const Index2D& pos, const Who& w, Communicator& c) {
  vc_assert(p.valid(), "pipelines can be used");
  vc_assert((p.rank_2d() == pos) & (p.size_2d() == Size2D(w.R, w.C)), "a pipeline knows the position and size of the grid");
  vc_assert((p.rank() == c.rank()) & (p.size() == c.size()), "and the rank and size of its communicator");
  vc_assert(p.rank_full_communicator(pos) == pos.row() * w.C + pos.col(), "rank of a position in the communicator of all processes");
  MPI_Comm h = MPI_COMM_NULL;
  {
    auto x = pika::this_thread::experimental::sync_wait(p.exclusive());
    h = x.get();
  }
  MPI_Comm h2 = MPI_COMM_NULL;
  {
    auto x = pika::this_thread::experimental::sync_wait(p.shared());
    h2 = x.get();
  }
  vc_assert(h == h2, "one communicator per pipeline");
  int i = comm_index(h);
  vc_assert(i > 0 && g_comm[i].of == comm_index(c), "a pipeline has its own duplicate of the communicator");
  return i;
}
template <int n> static void pipelines() {
  ghost_reset();
  Who w = any_grid();
  const long a = vc_range("row", 0, lim(2147483647, 4)), b = vc_range("col", 0, lim(2147483647, 4));
  vc_assume((a < w.R) & (b < w.C) & ((long) w.R * w.C <= w.size));
  vc_split(w.rowmajor);
  vc_lemma(a * w.C + b < (long) w.R * w.C);
  vc_lemma(b * w.R + a < (long) w.R * w.C);
  const int r = rank_of(w, a, b);
  inside_or_outside(w, r);
  CommunicatorGrid g(Communicator(MPI_COMM_WORLD), w.R, w.C, order(w), n);
  const Index2D pos((int) a, (int) b);
  vc_assert((int) g.num_pipelines() == n, "number of pipelines");
  int f[3], ro[3], co[3];
  for (int i = 0; i <= n; ++i) {
    f[i] = pipe_comm(g.full_communicator_pipeline(), pos, w, g.fullCommunicator());
    ro[i] = pipe_comm(i == 0 ? g.communicator_pipeline<Coord::Row>() : g.row_communicator_pipeline(), pos, w, g.rowCommunicator());
    co[i] = pipe_comm(i == 0 ? g.communicator_pipeline<Coord::Col>() : g.col_communicator_pipeline(), pos, w, g.colCommunicator());
  }
  vc_cover("any");
  vc_assert((f[0] == f[n]) & (ro[0] == ro[n]) & (co[0] == co[n]), "pipelines are used in turn");
  if (n == 2)
    vc_assert((f[0] != f[1]) & (ro[0] != ro[1]) & (co[0] != co[1]), "and are independent of each other");
}
VC_PROOF(pipelines_1, "") { pipelines<1>(); }
VC_PROOF(pipelines_2, "") { pipelines<2>(); }
template <int n> static void barriers() {
  ghost_reset();
  Who w = any_grid();
  g_waits = g_posted = 0;
  for (int i = 0; i < VC_MAX_COMMS; ++i) g_nbarrier[i] = 0;
  inside_or_outside(w, 0);
  CommunicatorGrid g(Communicator(MPI_COMM_WORLD), w.R, w.C, order(w), n);
  vc_cover("any");
  g.wait_all_communicators();
  vc_assert((g_posted == 3 * n) & (g_waits == 3 * n), "waits for one barrier per pipeline");
  for (int i = 0; i < g_ncomms; ++i)
    vc_assert(g_nbarrier[i] == (g_comm[i].of > 0 ? 1 : 0), "on every communicator of the pipelines");
}
VC_PROOF(barriers_1, "") { barriers<1>(); }
VC_PROOF(barriers_2, "") { barriers<2>(); }
