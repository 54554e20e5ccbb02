// Native runtime of the contract language: replays one input vector or searches random inputs on the real code.
#define VC_NATIVE
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <random>
#include <string>
#include <tuple>
#include <unistd.h>
#include <vector>
#include <chrono>

long vc_hint_slot[16];
struct Discard {};
[[noreturn]] static void discard();
struct Reg { const char* n; void (*f)(); };
static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
void vc_native_reg(const char* n, void (*f)()) { regs().push_back({n, f}); }

struct In { std::string n; long v; };
static std::vector<In> cur;                              // inputs consumed in this run
static std::map<std::string, std::vector<long>> fixed;   // replay values
static std::map<std::string, size_t> fixed_pos;
static bool replaying = false;
static std::mt19937_64 rng;
static long covers = 0;
static const char* harness = "?";

static void dump(const char* why, const char* what) {
  printf("NATIVE-FAIL harness=%s %s: %s\n", harness, why, what);
  printf("INPUTS {");
  for (size_t i = 0; i < cur.size(); ++i) printf("%s[\"%s\", %ld]", i ? ", " : "", cur[i].n.c_str(), cur[i].v);
  printf("}\n");
  fflush(stdout);
}
static bool allow_abort = false;
static sigjmp_buf env_;
[[noreturn]] static void discard() { siglongjmp(env_, 2); }
static void on_term() {
  if (allow_abort) siglongjmp(env_, 1);
 dump("abort", "the real code terminated (assertion or uncaught exception)"); _exit(1); }
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=512:exitcode=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=1"; }
static void on_san() { dump("sanitizer", "undefined behaviour or memory error in the executed code"); _exit(1); }
static void on_sig(int s) {
  if (s == SIGALRM) dump("hang", "no termination within the time limit");
  else dump("signal", strsignal(s));
  _exit(1);
}
static int profile = 0;
static long pick(long lo, long hi) {
  unsigned long w = (unsigned long) hi - (unsigned long) lo;
  if (w == 0) return lo;
  unsigned long m = rng() % 16;
  unsigned long span;
  if (profile == 0) span = m < 6 ? 3 : m < 11 ? 8 : m < 14 ? 24 : m < 15 ? 100 : w;
  else if (profile == 1) span = m < 8 ? 2 : m < 14 ? 5 : 12;
  else span = m < 4 ? 3 : m < 8 ? 30 : m < 12 ? 1000 : m < 13 ? 100000 : w;
  if (span > w) span = w;
  unsigned long d = span == ~0ul ? rng() : rng() % (span + 1);
  if (rng() % 24 == 0) return (long) ((unsigned long) hi - d);
  if (lo < 0 && hi > 0 && rng() % 8 != 0) {  // centre at zero
    unsigned long h = (unsigned long) hi;
    return (long) (d > h ? h : d);
  }
  return (long) ((unsigned long) lo + d);
}
static long get(const char* n, long lo, long hi) {
  long v;
  bool have = false;
  if (replaying) {
    auto& q = fixed[n];
    size_t& p = fixed_pos[n];
    if (p < q.size()) { v = q[p++]; have = true; }
  }
  if (!have) v = replaying ? (lo > 0 ? lo : (hi < 0 ? hi : 0)) : pick(lo, hi);
  cur.push_back({n, v});
  if (v < lo || v > hi) discard();
  return v;
}
extern "C" {
long vc_any_i64(const char* n) { return get(n, INT64_MIN, INT64_MAX); }
unsigned long vc_any_u64(const char* n) {
  // signed representation of the unsigned value
  long v;
  if (replaying) v = get(n, INT64_MIN, INT64_MAX);
  else { v = pick(0, INT64_MAX); if (rng() % 32 == 0) v = -v - 1; cur.push_back({n, v}); }
  return (unsigned long) v;
}
int vc_any_i32(const char* n) { return (int) get(n, INT32_MIN, INT32_MAX); }
unsigned vc_any_u32(const char* n) {
  long v;
  if (replaying) v = get(n, INT32_MIN, INT32_MAX);
  else { v = (int) pick(0, INT32_MAX); if (rng() % 32 == 0) v = -v - 1; cur.push_back({n, v}); }
  return (unsigned) v;
}
signed char vc_any_i8(const char* n) { return (signed char) get(n, -128, 127); }
bool vc_any_bool(const char* n) { return get(n, 0, 1) != 0; }
double vc_any_f64(const char* n) { return (double) get(n, -1000, 1000) * 0.5; }
long vc_range(const char* n, long lo, long hi) { if (lo > hi) discard(); return get(n, lo, hi); }
void vc_assume(bool c) { if (!c) discard(); }
void vc_assert(bool c, const char* id) { if (!c) { dump("assert", id); _exit(1); } }
void vc_requires(bool c, const char*) { vc_assume(c); }
void vc_ensures(bool c, const char* id) { vc_assert(c, id); }
bool vc_call_mode() { return false; }
bool vc_verifying() { return false; }
void vc_cover(const char*) { ++covers; }
void vc_unreachable(const char* id) { vc_assert(false, id); }
void vc_havoc(void* p, long n, const char* name) {
  for (long i = 0; i + 8 <= n; i += 8) { long v = get(name, INT64_MIN, INT64_MAX); memcpy((char*) p + i, &v, 8); }
}
static std::vector<void*> allocs;
void* vc_alloc(long n, const char*) {
  if (n < 0 || n > (1L << 24)) discard();
  unsigned char* p = (unsigned char*) malloc(n > 0 ? n : 1);
  for (long i = 0; i < n; ++i) p[i] = (unsigned char) rng();
  allocs.push_back(p);
  return p;
}
void vc_loop_inv(const char*, int, bool (*)(long)) {}
void vc_loop_try(const char*, bool (*)(long)) {}
long vc_entry(const void*, int) { return 0; }
void vc_join(const char*) {}
void vc_unroll(const char*, int) {}
void vc_split(bool) {}
void vc_mark() {}
void vc_forget(const void*, int, long) {}
void vc_merge() {}
void vc_fold(const void* p, long closed, int n, const char* id) {
  long v = n == 8 ? *(const long*) p : n == 4 ? *(const int*) p : n == 2 ? *(const short*) p : *(const signed char*) p;
  vc_assert(v == closed, id);
}
void vc_lemma(bool) {}
void vc_allow_abort(bool b) { allow_abort = b; }
bool vc_alive(const void*) { return true; }
long vc_live_heap() { return 0; }
bool vc_same(const void* a, const void* b) { return a == b; }
static std::map<std::tuple<long, long, long, long>, long> maps;
long vc_map_get(long i, long a, long b, long c) { auto it = maps.find({i, a, b, c}); return it == maps.end() ? 0 : it->second; }
void vc_map_set(long i, long a, long b, long c, long v) { maps[{i, a, b, c}] = v; }
}
void __attribute__((weak)) vc_native_reset() {}
static bool run1(void (*f)()) {
  cur.clear();
  fixed_pos.clear();
  maps.clear();
  memset(vc_hint_slot, 0, sizeof vc_hint_slot);
  vc_native_reset();
  for (void* p : allocs) free(p);
  allocs.clear();
  allow_abort = false;
  if (int j = sigsetjmp(env_, 1)) { allow_abort = false; return j == 1; }
  try { f(); return true; } catch (const Discard&) { return false; }
}
int main(int argc, char** argv) {
  // native run <harness> <seconds> <seed> | native replay <harness> name=value ...
  std::set_terminate(on_term);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_san);
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGTRAP}) signal(s, on_sig);
  if (argc < 3) return 3;
  int dn = open("/dev/null", O_WRONLY);  // the assertion messages of the real code
  if (dn >= 0) dup2(dn, 2);
  std::string mode = argv[1];
  harness = argv[2];
  void (*f)() = nullptr;
  for (auto& r : regs()) if (!strcmp(r.n, harness)) f = r.f;
  if (!f) { fprintf(stderr, "no harness %s\n", harness); return 3; }
  if (mode == "replay") {
    replaying = true;
    for (int i = 3; i < argc; ++i) {
      std::string a = argv[i];
      auto e = a.rfind('=');
      fixed[a.substr(0, e)].push_back(strtol(a.c_str() + e + 1, nullptr, 10));
    }
    alarm(20);
    bool ok = run1(f);
    printf("REPLAY %s\n", ok ? "passed" : "discarded");
    return ok ? 0 : 4;
  }
  double secs = argc > 3 ? atof(argv[3]) : 1;
  unsigned long seed = argc > 4 ? strtoul(argv[4], nullptr, 10) : 1;
  rng.seed(seed * 7919 + 13);
  auto t0 = std::chrono::steady_clock::now();
  long n = 0, ok = 0;
  while (true) {
    if ((n & 63) == 0) {
      alarm(20);
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    profile = (n >> 2) % 3;
    ++n;
    ok += run1(f);
  }
  printf("RANDOM runs=%ld accepted=%ld covers=%ld\n", n, ok, covers);
  return 0;
}
