// Ghost model of the MPI datatype interface: what the MPI standard says about these calls, as contracts.
#pragma once
#include <mpi.h>
#include "vc.h"
struct GhostType {
  int count, blocklength, stride;
  MPI_Datatype oldtype;
  bool committed, freed;
};
static const int kMaxTypes = 6;
static GhostType g_type[kMaxTypes];
static int g_ntypes, g_nfreed;
static bool g_mpi_may_fail, g_mpi_failed;
static bool g_vector_may_fail;
static MPI_Datatype ghost_handle(int i) { return reinterpret_cast<MPI_Datatype>(&g_type[i]); }
static int ghost_index(MPI_Datatype t) {
  for (int i = 0; i < kMaxTypes; ++i)
    if (t == ghost_handle(i))
      return i;
  return -1;
}
static int ghost_result() {
  vc_assert(!g_mpi_failed, "no MPI call after a failed one");
  if (g_mpi_may_fail) {
    int e = (int) vc_range("mpi error code", 0, 100);
    if (e != MPI_SUCCESS) g_mpi_failed = true;
    return e;
  }
  return MPI_SUCCESS;
}
// registers a live committed type created earlier
static MPI_Datatype ghost_new(int count, int bl, int stride, MPI_Datatype old) {
  int i = g_ntypes++;
  g_type[i] = {count, bl, stride, old, true, false};
  return ghost_handle(i);
}
static void ghost_reset() {
  g_ntypes = g_nfreed = 0;
  g_mpi_may_fail = g_mpi_failed = false;
}
extern "C" {
int MPI_Type_vector(int count, int blocklength, int stride, MPI_Datatype oldtype, MPI_Datatype* newtype) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  vc_assert((count >= 0) & (blocklength >= 0), "MPI_Type_vector: valid counts");
  vc_assert(g_ntypes < kMaxTypes, "ghost table large enough");
  int i = g_ntypes++;
  g_type[i] = {count, blocklength, stride, oldtype, false, false};
  *newtype = ghost_handle(i);
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* type) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  int i = ghost_index(*type);
  vc_assert(i >= 0 && i < g_ntypes && !g_type[i].freed, "MPI_Type_commit: live derived type");
  g_type[i].committed = true;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* type) {
  int e = ghost_result();
  if (e != MPI_SUCCESS) return e;
  int i = ghost_index(*type);
  vc_assert(i >= 0 && i < g_ntypes && !g_type[i].freed, "MPI_Type_free: live derived type, never a basic one and never twice");
  g_type[i].freed = true;
  ++g_nfreed;
  *type = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Error_string(int, char* s, int* len) {
  s[0] = 0;
  *len = 0;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int) {
  vc_assert(g_mpi_failed, "MPI_Abort only after a failed call");
  vc_cover("abort after failure");
  vc_assume(false);
  return 0;
}
}
