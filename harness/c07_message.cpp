//@property: C07
//@assume: the MPI datatype calls behave as in the MPI standard (harness/mpi_types.h); element types long, double, const int, complex
//@cflags: -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/repo/src
//@ldflags: -lmpi
// Messages and the lifetime of MPI datatypes.
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
#include <communication/datatypes.cpp>
#include "mpi_types.h"
using namespace dlaf;
using namespace dlaf::common;
using namespace dlaf::comm;
using comm::internal::type_handler;
static const long I32 = 2147483647L;

template <class T>
static void message_strided(MPI_Datatype basic) {
  ghost_reset();
  long nb = vc_range("nblocks", 0, (1L << 31) + 8), bs = vc_range("blocksize", 0, (1L << 31) + 8), st = vc_range("stride", 0, 1L << 40);
  vc_assume((nb != 1) & (bs != st));
  T buf[1] = {};
  vc_allow_abort(true);
  {
    auto m = make_message(DataDescriptor<T>(buf, nb, bs, st));
    vc_cover("accepted");
    vc_assert((nb <= I32) & (bs <= I32) & (st <= I32), "sizes that do not fit the MPI interface are rejected, never truncated");
    vc_assert((g_ntypes == 1) & (g_nfreed == 0), "one derived type");
    vc_assert((m.data() == buf) & (m.count() == 1) & (m.mpi_type() == ghost_handle(0)), "one element of the derived type at the address of the data");
    vc_assert((g_type[0].count == nb) & (g_type[0].blocklength == bs) & (g_type[0].stride == st) & (g_type[0].oldtype == basic), "the derived type selects exactly the blocks of the data");
    vc_assert(g_type[0].committed, "type ready to be used");
  }
  vc_assert((g_ntypes == 1) & (g_nfreed == 1), "type released");
}
template <class T>
static void message_contiguous(MPI_Datatype basic) {
  ghost_reset();
  long nb = vc_range("nblocks", 0, (1L << 31) + 8), bs = vc_range("blocksize", 0, (1L << 31) + 8);
  T buf[1] = {};
  vc_allow_abort(true);
  {
    auto m = make_message(DataDescriptor<T>(buf, nb, bs, bs));
    int c = m.count();
    vc_cover("accepted");
    vc_assert((c == nb * bs) & (nb * bs <= I32), "every element, or rejected when the count does not fit");
    vc_assert((m.data() == buf) & (m.mpi_type() == basic) & (g_ntypes == 0), "basic type at the address of the data");
  }
  vc_assert((g_ntypes == 0) & (g_nfreed == 0), "basic types are not released");
}
VC_PROOF(strided_long, "") { message_strided<long>(MPI_LONG); }
VC_PROOF(strided_cdouble, "") { message_strided<const double>(MPI_DOUBLE); }
VC_PROOF(strided_complex, "") { message_strided<std::complex<float>>(MPI_CXX_FLOAT_COMPLEX); }
VC_PROOF(contiguous_long, "") { message_contiguous<long>(MPI_LONG); }
VC_PROOF(contiguous_cint, "") { message_contiguous<const int>(MPI_INT); }
VC_PROOF(contiguous_array, "") {
  ghost_reset();
  double a[5] = {};
  auto m = make_message(make_data(a, 5));
  vc_cover("any");
  vc_assert((m.data() == a) & (m.count() == 5) & (m.mpi_type() == MPI_DOUBLE), "array");
  float f;
  auto v = make_message(make_data(&f, 1));
  vc_assert((v.data() == &f) & (v.count() == 1) & (v.mpi_type() == MPI_FLOAT), "scalar");
}

// every basic type maps to the MPI type of the same C++ type
VC_PROOF(basic_types, "") {
  vc_cover("any");
  vc_assert(mpi_datatype<char>::type == MPI_CHAR, "char");
  vc_assert(mpi_datatype<short>::type == MPI_SHORT, "short");
  vc_assert(mpi_datatype<int>::type == MPI_INT, "int");
  vc_assert(mpi_datatype<long>::type == MPI_LONG, "long");
  vc_assert(mpi_datatype<long long>::type == MPI_LONG_LONG, "long long");
  vc_assert(mpi_datatype<unsigned char>::type == MPI_UNSIGNED_CHAR, "unsigned char");
  vc_assert(mpi_datatype<unsigned short>::type == MPI_UNSIGNED_SHORT, "unsigned short");
  vc_assert(mpi_datatype<unsigned>::type == MPI_UNSIGNED, "unsigned");
  vc_assert(mpi_datatype<unsigned long>::type == MPI_UNSIGNED_LONG, "unsigned long");
  vc_assert(mpi_datatype<unsigned long long>::type == MPI_UNSIGNED_LONG_LONG, "unsigned long long");
  vc_assert(mpi_datatype<float>::type == MPI_FLOAT, "float");
  vc_assert(mpi_datatype<double>::type == MPI_DOUBLE, "double");
  vc_assert(mpi_datatype<bool>::type == MPI_CXX_BOOL, "bool");
  vc_assert((mpi_datatype<std::complex<float>>::type == MPI_CXX_FLOAT_COMPLEX) | (mpi_datatype<std::complex<float>>::type == MPI_C_FLOAT_COMPLEX), "complex float");
  vc_assert((mpi_datatype<std::complex<double>>::type == MPI_CXX_DOUBLE_COMPLEX) | (mpi_datatype<std::complex<double>>::type == MPI_C_DOUBLE_COMPLEX), "complex double");
  vc_assert(mpi_datatype<const double>::type == MPI_DOUBLE, "const double");
}

// ---- ownership.  Invariant: every live derived type is owned by exactly one valid handler.  Each operation, started
// in an arbitrary state that satisfies the invariant, re-establishes it: so do all sequences of operations.
struct Slot : type_handler<long> {
  using type_handler<long>::type_handler;
  Slot() = default;
  Slot(bool owns) { if (owns) custom_type_ = ghost_new(2, 1, 3, MPI_LONG); }
  Slot(Slot&&) = default;
  Slot& operator=(Slot&&) = default;
};
static long live_types() { return g_ntypes - g_nfreed; }
VC_PROOF(handler_ctor_dtor, "") {
  ghost_reset();
  bool o = vc_any_bool("owns");
  {
    Slot s(o);
    vc_cover("any");
    vc_assert(bool(s) == o, "valid iff it owns a type");
    vc_assert(((MPI_Datatype) s == MPI_DATATYPE_NULL) == !o, "null iff not valid");
  }
  vc_assert(live_types() == 0, "released");
}
VC_PROOF(handler_move_ctor, "") {
  ghost_reset();
  bool o = vc_any_bool("owns");
  {
    Slot s(o);
    MPI_Datatype t = s;
    Slot r(std::move(s));
    vc_cover("any");
    vc_assert(((MPI_Datatype) r == t) & ((MPI_Datatype) s == MPI_DATATYPE_NULL), "ownership transferred");
    vc_assert(live_types() == (o ? 1 : 0), "nothing released by the move");
  }
  vc_assert(live_types() == 0, "released exactly once");
}
VC_PROOF(handler_move_assign, "") {
  ghost_reset();
  bool o1 = vc_any_bool("target owns"), o2 = vc_any_bool("source owns");
  {
    Slot a(o1), b(o2);
    MPI_Datatype t = b;
    a = std::move(b);
    vc_cover("any");
    vc_assert((MPI_Datatype) a == t, "ownership transferred");
    vc_assert(live_types() == (bool(a) ? 1 : 0) + (bool(b) ? 1 : 0), "every live type still has an owner");
  }
  vc_assert(live_types() == 0, "released exactly once");
}
VC_PROOF(handler_self_move, "") {
  ghost_reset();
  bool o = vc_any_bool("owns");
  {
    Slot a(o);
    Slot& r = a;
    a = std::move(r);
    vc_cover("any");
    vc_assert(live_types() == (bool(a) ? 1 : 0), "every live type still has an owner");
  }
  vc_assert(live_types() == 0, "released exactly once");
}
using Msg = Message<DataDescriptor<long>>;
static DataDescriptor<long> descr(long* p, bool strided) { return strided ? DataDescriptor<long>(p, 3, 2, 5) : DataDescriptor<long>(p, 6); }
VC_PROOF(message_move, "") {
  ghost_reset();
  bool s1 = vc_any_bool("target strided"), s2 = vc_any_bool("source strided");
  long x[20], y[20];
  {
    Msg a(descr(x, s1)), b(descr(y, s2));
    MPI_Datatype t = b.mpi_type();
    int c = b.count();
    a = std::move(b);
    vc_cover("assigned");
    vc_assert((a.data() == y) & (a.mpi_type() == t) & (a.count() == c), "the target becomes the source message");
    Msg d(std::move(a));
    vc_assert((d.data() == y) & (d.mpi_type() == t) & (d.count() == c), "move construction preserves the message");
    vc_assert(t == MPI_LONG || (g_type[ghost_index(t)].committed && !g_type[ghost_index(t)].freed), "its type is alive");
  }
  vc_assert(live_types() == 0, "released exactly once");
}
// ---- failures reported by MPI
VC_PROOF(mpi_failures, "") {
  ghost_reset();
  g_mpi_may_fail = true;
  long x[20];
  {
    Msg a(descr(x, true));
    vc_assert(!g_mpi_failed, "construction does not survive a failed MPI call");
    vc_cover("no failure");
    int c = a.count();
    vc_assert(c == 1, "one");
  }
  vc_assert(!g_mpi_failed, "a failed MPI call is never ignored");
}
