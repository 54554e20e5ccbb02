//@property: C05
//@assume: interval lengths and block sizes below 2^40
//@trusted: std::vector<long>::push_back/back/reserve replaced by their contracts (append / last element / no effect) while interleaveSplits is verified
// util::interleaveSplits: the returned split points.
#include <dlaf/util_math.h>
#include "vc.h"
using namespace dlaf;

// ghost state of the vector being filled: number of elements, last one, and whether an arbitrary value x was appended
static long g_n, g_last, g_x, g_seen, g_first;
static long g_l, g_b, g_s, g_g;
static void c_push(std::vector<long>*, const long* v) {
  vc_requires((g_n == 0) || (*v > g_last), "split points are appended in strictly increasing order");
  if (g_n == 0) g_first = *v;
  if (*v == g_x) ++g_seen;
  g_last = *v;
  ++g_n;
}
static long* c_back(std::vector<long>*) {
  vc_requires(g_n > 0, "vector not empty");
  return &g_last;
}
static long* c_emplace(std::vector<long>* p, long* v) {
  c_push(p, v);
  return &g_last;
}
static void c_reserve(std::vector<long>*, unsigned long) {}
VC_CONTRACT("push_back", "std::vector<long, std::allocator<long>>::push_back(long const&)", &c_push)
VC_CONTRACT("push_back_rv", "std::vector<long, std::allocator<long>>::push_back(long&&)", &c_push)
VC_CONTRACT("emplace_back", "long& std::vector<long, std::allocator<long>>::emplace_back<long*", &c_emplace)
VC_CONTRACT("back", "std::vector<long, std::allocator<long>>::back()", &c_back)
VC_CONTRACT("reserve", "std::vector<long, std::allocator<long>>::reserve(unsigned long)", &c_reserve)

// the arbitrary value x, written as  x = s + q1 b + r1 = g + q2 b + r2  (0 <= r < b)
static long g_q1, g_r1, g_q2, g_r2;
static bool inv(long k) {
  long i = g_s + k * g_b, j = g_g + k * g_b;
  bool order = (g_last >= 0) & (g_last < g_l) & (g_n >= 1) & (g_first == 0);
  bool pos = (k == 0) ? (g_last == 0) : ((g_last <= j - g_b) & ((i - g_b >= g_l) | (g_last >= i - g_b)) & ((j - g_b >= g_l) | (g_last == j - g_b)));
  bool cut1 = (g_r1 == 0) & (g_q1 >= 0) & (g_q1 < k), cut2 = (g_r2 == 0) & (g_q2 >= 0) & (g_q2 < k);
  bool want = (g_x == 0) | ((g_x < g_l) & (cut1 | cut2));
  return order & pos & (g_seen == (want ? 1 : 0));
}
VC_PROOF(interleave, "") {
  const long K = 1L << 40;
  long l = vc_range("l", 1, K), b = vc_range("b", 1, K), o1 = vc_range("o1", 0, K), o2 = vc_range("o2", 0, K);
  vc_assume((o1 <= b) & (o2 <= b));
  vc_split(o1 < o2);
  vc_split(o1 == o2);
  g_x = vc_range("x", 0, K);
  vc_assume(g_x <= l);
  g_n = g_seen = 0;
  g_last = g_first = -1;
  g_l = l; g_b = b; if (o1 < o2) g_s = o1, g_g = o2;
  else g_s = o2, g_g = o1;
  // quotient and remainder of x - s and x - g by b (floor), as ghost values
  g_q1 = vc_range("q1", -K, K); g_r1 = vc_range("r1", 0, K); g_q2 = vc_range("q2", -K, K); g_r2 = vc_range("r2", 0, K);
  if (!vc_verifying()) {
    auto fl = [](long a, long d) { return a >= 0 ? a / d : -((-a + d - 1) / d); };
    g_q1 = fl(g_x - g_s, b); g_r1 = g_x - g_s - g_q1 * b;
    g_q2 = fl(g_x - g_g, b); g_r2 = g_x - g_g - g_q2 * b;
  }
  vc_assume((g_x == g_s + g_q1 * b + g_r1) & (g_r1 < b) & (g_x == g_g + g_q2 * b + g_r2) & (g_r2 < b));
  if (!vc_verifying()) vc_assume(l / b < 100000);  // memory of the native runs
  vc_loop_inv("interleaveSplits", 0, &inv);
  auto v = util::interleaveSplits(l, b, o1, o2);
  if (!vc_verifying()) {
    for (long e : v) {
      vc_assert(g_n == 0 || e > g_last, "split points are appended in strictly increasing order");
      long t = e;
      c_push(nullptr, &t);
    }
  }
  vc_cover("returned");
  vc_assert((g_first == 0) & (g_last == l) & (g_n >= 2), "from 0 to the length");
  bool cut1 = (g_q1 >= 0) & (g_r1 == 0), cut2 = (g_q2 >= 0) & (g_r2 == 0);  // x is a block boundary
  bool want = (g_x == 0) | (g_x == l) | cut1 | cut2;
  vc_assert(g_seen == (want ? 1 : 0), "exactly the block boundaries of the two intervals, once each");
}
