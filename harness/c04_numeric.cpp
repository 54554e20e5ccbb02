//@property: C04
//@assume: the range checks of the casts are compiled in (moderate assertions enabled, as in the checked build)
//@assume: element counts and extents used with ceilDiv stay below 2^62 so that num + den - 1 is representable
// Exact-or-rejected integer conversions and the arithmetic helpers built on them.
#include <dlaf/util_math.h>
#include "vc.h"
using namespace dlaf;

template <class T>
static T any(const char* n);
template <> long any<long>(const char* n) { return vc_any_i64(n); }
template <> int any<int>(const char* n) { return vc_any_i32(n); }
template <> signed char any<signed char>(const char* n) { return vc_any_i8(n); }
template <> unsigned long any<unsigned long>(const char* n) { return vc_any_u64(n); }
template <> unsigned any<unsigned>(const char* n) { return vc_any_u32(n); }
template <> unsigned char any<unsigned char>(const char* n) { return (unsigned char) vc_range(n, 0, 255); }
template <> short any<short>(const char* n) { return (short) vc_range(n, -32768, 32767); }

// value of x is representable in To, decided without converting
template <class To, class From>
static bool fits(From x) {
  if constexpr (std::is_signed_v<From>) {
    long v = (long) x;
    if constexpr (std::is_signed_v<To>)
      return (v >= (long) std::numeric_limits<To>::min()) & (v <= (long) std::numeric_limits<To>::max());
    else if constexpr (sizeof(To) == 8)
      return v >= 0;
    else
      return (v >= 0) & (v <= (long) std::numeric_limits<To>::max());
  }
  else {
    unsigned long v = (unsigned long) x;
    return v <= (unsigned long) std::numeric_limits<To>::max();
  }
}
template <class To, class From>
static bool same(To y, From x) {
  // equality of the mathematical values
  if constexpr (std::is_signed_v<From> == std::is_signed_v<To>) {
    if constexpr (std::is_signed_v<From>)
      return (long) y == (long) x;
    else
      return (unsigned long) y == (unsigned long) x;
  }
  else if constexpr (std::is_signed_v<From>)
    return (x >= 0) & ((unsigned long) y == (unsigned long) (long) x);
  else
    return (y >= 0) & ((unsigned long) (long) y == (unsigned long) x);
}
template <class To, class From>
static void conv() {
  From x = any<From>("value");
  if (fits<To, From>(x)) {
    vc_cover("representable");
    To y = integral_cast<To>(x);
    vc_assert(same<To, From>(y, x), "a representable value is preserved");
    if constexpr (std::is_signed_v<To>)
      vc_assert(same<To, From>(to_signed<To>(x), x), "to_signed preserves");
    else
      vc_assert(same<To, From>(to_unsigned<To>(x), x), "to_unsigned preserves");
  }
  else {
    if constexpr (!(sizeof(To) == 8 && std::is_signed_v<To> && std::is_signed_v<From>))
      vc_cover("not representable");
    vc_allow_abort(true);
    To y = integral_cast<To>(x);
    (void) y;
    vc_unreachable("a value that does not fit is never converted silently");
  }
}
#define CONV(name, To, From) VC_PROOF(cast_##name, "") { conv<To, From>(); }
CONV(u64_i32, int, unsigned long)
CONV(u64_i64, long, unsigned long)
CONV(u32_i32, int, unsigned)
CONV(u32_i8, signed char, unsigned)
CONV(u8_i8, signed char, unsigned char)
CONV(i64_i32, int, long)
CONV(i64_i8, signed char, long)
CONV(i32_i8, signed char, int)
CONV(i32_i16, short, int)
CONV(i64_u64, unsigned long, long)
CONV(i64_u32, unsigned, long)
CONV(i64_u8, unsigned char, long)
CONV(i32_u32, unsigned, int)
CONV(i32_u64, unsigned long, int)
CONV(i8_u8, unsigned char, signed char)
CONV(u64_u32, unsigned, unsigned long)
CONV(u64_u8, unsigned char, unsigned long)
CONV(u32_u8, unsigned char, unsigned)

// widening conversions never reject
template <class To, class From>
static void widen() {
  From x = any<From>("value");
  vc_cover("any");
  vc_assert(same<To, From>(integral_cast<To>(x), x), "widening preserves every value");
}
VC_PROOF(widen, "") {
  widen<long, int>();
  widen<long, signed char>();
  widen<int, short>();
  widen<long, unsigned>();
  widen<unsigned long, unsigned>();
  widen<unsigned long, unsigned char>();
  widen<int, unsigned char>();
}
VC_PROOF(shorthands, "") {
  long a = vc_range("a", 0, 2147483647L);
  vc_cover("any");
  vc_assert((to_int(a) == a) & (to_int((unsigned long) a) == a), "to_int");
  vc_assert((to_uint(a) == (unsigned) a) & (to_uint((unsigned long) a) == (unsigned) a), "to_uint");
  long b = vc_range("b", 0, INT64_MAX);
  vc_assert((to_sizet(b) == (unsigned long) b) & (to_SizeType((unsigned long) b) == b), "to_sizet / to_SizeType");
}
VC_PROOF(shorthands_reject, "") {
  long a = vc_any_i64("a");
  int which = (int) vc_range("which", 0, 3);
  vc_allow_abort(true);
  vc_cover("any");
  if (which == 0) {
    vc_assume((a < -2147483648L) | (a > 2147483647L));
    to_int(a);
  }
  else if (which == 1) {
    vc_assume((a < 0) | (a > 4294967295L));
    to_uint(a);
  }
  else if (which == 2) {
    vc_assume(a < 0);
    to_sizet(a);
  }
  else {
    vc_assume(a < 0);
    to_SizeType((unsigned long) a);
  }
  vc_unreachable("a value that does not fit is rejected");
}
template <class T>
static void ceil_div(long maxv) {
  T n = (T) vc_range("num", 0, maxv), d = (T) vc_range("den", 1, maxv);
  vc_cover("any");
  T q = util::ceilDiv<T>(n, d);
  vc_assert((q >= 0) & (n <= q * d), "quotient covers the numerator");
  vc_assert((n == 0) ? (q == 0) : ((q - 1) * d < n), "and is the smallest such");
}
VC_PROOF(ceil_div_i64, "") { ceil_div<long>(1L << 30); }
VC_PROOF(ceil_div_i32, "") { ceil_div<int>(1L << 15); }
VC_PROOF(ceil_div_large, "") {
  long n = vc_range("num", 0, 1L << 61), d = vc_range("den", 1, 1L << 61);
  vc_cover("any");
  long q = util::ceilDiv<long>(n, d);
  vc_assert(q >= 0, "nonneg");
  vc_assert((q == 0) == (n == 0), "zero only for an empty range");
  vc_assert(q * d >= n, "covers");
  vc_assert(q * d - d < n || n == 0, "smallest");
}
VC_PROOF(sum_mul, "") {
  long a = vc_range("a", 0, 1L << 31), b = vc_range("b", 0, 1L << 31);
  vc_cover("any");
  vc_assert(util::size_t::sum(a, b) == (unsigned long) (a + b), "size_t sum");
  vc_assert(util::size_t::mul(a, b) == (unsigned long) (a * b), "size_t product");
  vc_assert(util::ptrdiff_t::sum(a, b) == a + b, "ptrdiff_t sum");
  vc_assert(util::ptrdiff_t::mul(a, b) == a * b, "ptrdiff_t product");
  int x = vc_any_i32("x"), y = vc_any_i32("y");
  vc_assert(util::ptrdiff_t::sum(x, y) == (long) x + y, "sum of ints does not overflow");
  vc_assert(util::ptrdiff_t::mul(x, y) == (long) x * y, "product of ints does not overflow");
  unsigned u = vc_any_u32("u"), v = vc_any_u32("v");
  vc_assert(util::size_t::sum(u, v) == (unsigned long) u + v, "sum of unsigneds does not wrap");
}
VC_PROOF(sum_mul_reject, "") {
  long a = vc_any_i64("a"), b = vc_range("b", 0, 100);
  vc_assume(a < 0);
  vc_cover("any");
  vc_allow_abort(true);
  if (vc_any_bool("mul"))
    util::size_t::mul(a, b);
  else
    util::size_t::sum(b, a);
  vc_unreachable("negative operands of unsigned arithmetic are rejected");
}
VC_PROOF(percent_index, "") {
  long n = vc_range("size", 0, 1L << 40);
  vc_cover("any");
  vc_allow_abort(true);
  long i = util::internal::percent_to_index(n, vc_any_f64("percent"));
  vc_cover("returned");
  vc_assert((i >= 0) & (i <= n), "a percentage selects an index of the range");
}
