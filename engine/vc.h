// Contract language for the deductive verifier in /verif/engine.
// The same source is (1) compiled to LLVM IR together with the real /repo code and symbolically verified, and
// (2) compiled natively (engine/vc_native.cpp) to replay counterexamples against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>

extern "C" {
long vc_any_i64(const char* name);
unsigned long vc_any_u64(const char* name);
int vc_any_i32(const char* name);
unsigned vc_any_u32(const char* name);
signed char vc_any_i8(const char* name);
bool vc_any_bool(const char* name);
double vc_any_f64(const char* name);
long vc_range(const char* name, long lo, long hi);  // arbitrary value in [lo, hi]
void vc_assume(bool c);
void vc_assert(bool c, const char* id);
void vc_requires(bool c, const char* id);  // contract call: obligation; contract proof: assumption
void vc_ensures(bool c, const char* id);   // contract call: assumption; contract proof: obligation
bool vc_call_mode();                       // true inside a contract that stands for a call
bool vc_verifying();                       // true in the verifier, false natively
void vc_cover(const char* id);             // must be reachable (vacuity guard)
void vc_unreachable(const char* id);
void vc_havoc(void* p, long n, const char* name);  // arbitrary contents
void* vc_alloc(long n, const char* name);          // new object, n bytes, arbitrary contents
void vc_loop_inv(const char* fn_regex, int idx, bool (*pred)(long k));
void vc_loop_try(const char* fn_regex, bool (*pred)(long k));  // candidate invariant: used in the loops where it is one
long vc_entry(const void* p, int bytes);  // inside pred: the integer at p when the loop was entered
void vc_join(const char* fn_regex);  // represent a choice between side effect free values in these functions by one value (before they run)
void vc_unroll(const char* fn_regex, int n);
void vc_split(bool c);  // case split, no logical effect
void vc_lemma(bool c);  // proof hint: proved on the spot and then available, ignored when not provable
void vc_allow_abort(bool on);  // a failing assertion of the real code ends the run without violating anything
void vc_mark();   // the execution state here is the start of a joinable region (once per function)
void vc_merge();  // executions with equal state join here, keeping what was known at vc_mark()
void vc_fold(const void* p, long closed, int bytes, const char* id);  // obligation: the integer at p equals closed; then represented so (id starting with '?': only if it can be proved here)
void vc_forget(const void* p, int bytes, long x);  // the integer at p becomes arbitrary; x: an arbitrary value used nowhere else
bool vc_alive(const void* p);  // the object p points into has not been freed
long vc_live_heap();             // number of live heap allocations (0 natively)
bool vc_same(const void* a, const void* b);
// ghost maps (total; default 0 for ids below 100, arbitrary for others): id, key0, key1, key2
long vc_map_get(long id, long a, long b, long c);
void vc_map_set(long id, long a, long b, long c, long v);
}

struct vc_contract_entry {
  const char* id;
  long real[2];
  void* contract;
};

// hints for universally quantified postconditions
extern "C" long vc_hint_slot[16];
inline long vc_forall(int slot, const char* name) {
  return vc_call_mode() ? vc_hint_slot[slot] : vc_any_i64(name);
}
inline void vc_hint(int slot, long v) { vc_hint_slot[slot] = v; }

#define VC_CAT2(a, b) a##b
#define VC_CAT(a, b) VC_CAT2(a, b)

// bind a contract to the (demangled-)named real function;  names are matched against the demangled symbol
#define VC_CONTRACT(id, demangled, fn)                                                                     \
  extern "C" __attribute__((used, section("vc_contracts"))) const char* const VC_CAT(vc_cn_, __LINE__) = id "\n" demangled; \
  extern "C" __attribute__((used, section("vc_contracts"))) void* const VC_CAT(vc_cf_, __LINE__) = (void*) fn;

// a proof harness.  proves: space separated contract ids whose real function is executed (not replaced)
#define VC_PROOF(name, proves)                                                                       \
  extern "C" void VC_CAT(H_, name)();                                                                \
  extern "C" __attribute__((used, section("vc_proofs"))) const char* const VC_CAT(vc_pn_, name) = #name "\n" proves; \
  extern "C" __attribute__((used, section("vc_proofs"))) void* const VC_CAT(vc_pf_, name) = (void*) &VC_CAT(H_, name); \
  VC_NATIVE_REG(name)                                                                                \
  extern "C" void VC_CAT(H_, name)()

#ifdef VC_NATIVE
void vc_native_reg(const char* name, void (*fn)());
#define VC_NATIVE_REG(name) \
  static struct VC_CAT(vc_reg_, name) { VC_CAT(vc_reg_, name)() { vc_native_reg(#name, &VC_CAT(H_, name)); } } VC_CAT(vc_regi_, name);
#else
#define VC_NATIVE_REG(name)
#endif

template <class T> inline void vc_fold_as(const T& x, long closed, const char* id) { vc_fold(&x, closed, sizeof(T), id); }

#ifdef VC_SYMBOLIC
// libc functions with a direct definition (C standard semantics)
#include <cstdlib>
extern "C" __attribute__((weak)) div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
extern "C" __attribute__((weak)) ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
extern "C" __attribute__((weak)) lldiv_t lldiv(long long a, long long b) { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
#endif
