// Ghost model of the MPI communicator interface: what the MPI standard says about these calls, as contracts.
#pragma once
#include <mpi.h>
#include "vc.h"
struct GhostComm { int size, rank; bool freed; int of = -1; };  // of: the communicator this is a duplicate of
#ifndef VC_MAX_COMMS
#define VC_MAX_COMMS 6
#endif
static const int kMaxComms = VC_MAX_COMMS;
static GhostComm g_comm[kMaxComms];  // 0 stands for MPI_COMM_WORLD
static int g_ncomms, g_nfreed;
static bool g_mpi_may_fail, g_mpi_failed;
static MPI_Comm comm_handle(int i) { return i == 0 ? MPI_COMM_WORLD : reinterpret_cast<MPI_Comm>(&g_comm[i]); }
static int comm_index(MPI_Comm c) {
  for (int i = 0; i < kMaxComms; ++i)
    if (c == comm_handle(i))
      return i;
  return -1;
}
static int ghost_result() {
  vc_assert(!g_mpi_failed, "no MPI call after a failed one");
  if (g_mpi_may_fail) {
    int e = (int) vc_range("mpi error code", 0, 100);
    if (e != MPI_SUCCESS) g_mpi_failed = true;
    return e;
  }
  return MPI_SUCCESS;
}
static void ghost_reset() {
  g_ncomms = 1;
  g_nfreed = 0;
  g_mpi_may_fail = g_mpi_failed = false;
  int s = (int) vc_range("world size", 1, 2147483647), r = (int) vc_range("world rank", 0, 2147483646);
  vc_assume(r < s);
  g_comm[0] = {s, r, false};
}
static MPI_Comm ghost_new(int size, int rank) {
  vc_assert(g_ncomms < kMaxComms, "ghost table large enough");
  int i = g_ncomms++;
  g_comm[i] = {size, rank, false, -1};
  return comm_handle(i);
}
static MPI_Comm any_comm() {
  int s = (int) vc_range("size", 1, 2147483647), r = (int) vc_range("rank", 0, 2147483646);
  vc_assume(r < s);
  return ghost_new(s, r);
}
static int ghost_live(MPI_Comm c) {
  int i = comm_index(c);
  vc_assert(i >= 0 && i < g_ncomms && !g_comm[i].freed, "only live communicators are passed to MPI");
  return i;
}
extern "C" {
int MPI_Comm_size(MPI_Comm c, int* s) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  *s = g_comm[ghost_live(c)].size;
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int* r) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  *r = g_comm[ghost_live(c)].rank;
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  int i = ghost_live(c);
  *n = ghost_new(g_comm[i].size, g_comm[i].rank);
  g_comm[g_ncomms - 1].of = i;
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  int i = ghost_live(*c);
  vc_assert(i != 0, "MPI_COMM_WORLD is never freed");
  g_comm[i].freed = true;
  ++g_nfreed;
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Error_string(int, char* s, int* len) {
  s[0] = 0;
  *len = 0;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int) {
  vc_assert(g_mpi_failed, "MPI_Abort only after a failed call");
  vc_cover("abort after failure");
  vc_assume(false);
  return 0;
}
}
