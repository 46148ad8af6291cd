// C07: checked conversions of types.h / util_math.h: the exact value, or termination.
#include "vf.h"
#include <climits>
#include <limits>
#include <type_traits>
#include <dlaf/types.h>
#include <dlaf/util_math.h>
namespace {
// (no 128-bit integers: sign and magnitude are compared separately)
template <class To, class From> bool fits(From v) {
  if constexpr (std::is_signed_v<From>)
    if (v < 0) return std::is_signed_v<To> && (long) v >= (long) std::numeric_limits<To>::min();
  return (unsigned long) v <= (unsigned long) std::numeric_limits<To>::max();
}
template <class To, class From> bool same(To r, From v) {
  bool rn = false, vn = false;
  if constexpr (std::is_signed_v<To>) rn = r < 0;
  if constexpr (std::is_signed_v<From>) vn = v < 0;
  return rn == vn && (unsigned long) r == (unsigned long) v;
}
template <class T> T any(const char* n) {
  if constexpr (std::is_signed_v<T>) return (T) vf_i64(n, (int64_t) std::numeric_limits<T>::min(), (int64_t) std::numeric_limits<T>::max());
  else return (T) vf_u64(n, 0, (uint64_t) std::numeric_limits<T>::max());
}

template <class To, class From, class F> void conv(F f, const char* cover) {
  const From v = any<From>("value");
  if (fits<To>(v)) {
    vf_cover("representable");
    To r = f(v);
    vf_check(same(r, v), "conversion keeps the value");
  }
  else {
    vf_cover("not representable");
    vf_allow_abort(1);
    f(v);
    vf_fail("a value that does not fit is stopped");
  }
  (void) cover;
}
template <class To, class From> void to() {
  const int form = vf_pick("form", 0, 1);
  if (form == 0) conv<To, From>([](From v) {
    if constexpr (std::is_signed_v<To>) return dlaf::to_signed<To>(v);
    else return dlaf::to_unsigned<To>(v);
  }, "");
  else conv<To, From>([](From v) { return dlaf::integral_cast<To>(v); }, "");
}
template <class To> void from_all() {
  switch (vf_pick("from", 0, 7)) {
    case 0: to<To, signed char>(); break;
    case 1: to<To, unsigned char>(); break;
    case 2: to<To, short>(); break;
    case 3: to<To, unsigned short>(); break;
    case 4: to<To, int>(); break;
    case 5: to<To, unsigned>(); break;
    case 6: to<To, long>(); break;
    case 7: to<To, unsigned long>(); break;
  }
}
template <class From> void named() {
  switch (vf_pick("fn", 0, 3)) {
    case 0: conv<int, From>([](From v) { return dlaf::to_int(v); }, ""); break;
    case 1: conv<unsigned, From>([](From v) { return dlaf::to_uint(v); }, ""); break;
    case 2: conv<std::size_t, From>([](From v) { return dlaf::to_sizet(v); }, ""); break;
    case 3: conv<dlaf::SizeType, From>([](From v) { return dlaf::to_SizeType(v); }, ""); break;
  }
}
template <class A, class B> void ops() {
  namespace us = dlaf::util::size_t;
  namespace ps = dlaf::util::ptrdiff_t;
  static_assert(std::is_same_v<decltype(us::sum(A(), B())), std::size_t> && std::is_same_v<decltype(ps::mul(A(), B())), dlaf::SizeType>);
  const int op = vf_pick("op", 0, 3);
  A a = any<A>("a");
  B b = any<B>("b");
  const bool uns = op < 2;
  const bool ok = uns ? fits<std::size_t>(a) && fits<std::size_t>(b) : fits<dlaf::SizeType>(a) && fits<dlaf::SizeType>(b);
  if (!ok) {
    vf_cover("operand does not fit");
    vf_allow_abort(1);
    // stop before the arithmetic: only the conversion of the operands is under test
    if (op == 0) us::sum(a, b);
    else if (op == 1) us::mul(a, b);
    else if (op == 2) ps::sum(a, b);
    else ps::mul(a, b);
    vf_fail("an operand that does not fit is stopped");
    return;
  }
  if (op == 1 || op == 3) {
    // products: 64-bit operands are bounded so that the product is representable
    const long lim = 1l << 31;
    if (sizeof(A) == 8 || (sizeof(A) == 4 && std::is_unsigned_v<A>)) { if (std::is_unsigned_v<A>) vf_assume((unsigned long) a < (unsigned long) lim); else vf_assume((long) a < lim && (long) a > -lim); }
    if (sizeof(B) == 8 || (sizeof(B) == 4 && std::is_unsigned_v<B>)) { if (std::is_unsigned_v<B>) vf_assume((unsigned long) b < (unsigned long) lim); else vf_assume((long) b < lim && (long) b > -lim); }
    const long m = (long) a * (long) b;
    vf_cover("product");
    if (uns) vf_check(us::mul(a, b) == (std::size_t) m, "size_t product");
    else vf_check(ps::mul(a, b) == m, "ptrdiff_t product");
  }
  else if (uns) {
    vf_assume((unsigned long) a <= ULONG_MAX - (unsigned long) b);
    vf_cover("sum");
    const unsigned long s = us::sum(a, b);
    vf_check(s >= (unsigned long) a && s - (unsigned long) a == (unsigned long) b, "size_t sum");
  }
  else {
    const long x = (long) a, y = (long) b;
    vf_assume(y >= 0 ? x <= LONG_MAX - y : x >= LONG_MIN - y);
    vf_cover("sum");
    vf_check(ps::sum(a, b) == x + y, "ptrdiff_t sum");
  }
}
template <class A> void ops_all() {
  switch (vf_pick("b_type", 0, 5)) {
    case 0: ops<A, signed char>(); break;
    case 1: ops<A, unsigned short>(); break;
    case 2: ops<A, int>(); break;
    case 3: ops<A, unsigned>(); break;
    case 4: ops<A, long>(); break;
    case 5: ops<A, unsigned long>(); break;
  }
}
}
extern "C" {
void c07_to_i8() { from_all<signed char>(); }
void c07_to_u8() { from_all<unsigned char>(); }
void c07_to_i16() { from_all<short>(); }
void c07_to_u16() { from_all<unsigned short>(); }
void c07_to_i32() { from_all<int>(); }
void c07_to_u32() { from_all<unsigned>(); }
void c07_to_i64() { from_all<long>(); }
void c07_to_u64() { from_all<unsigned long>(); }
void c07_named() {
  switch (vf_pick("from", 0, 7)) {
    case 0: named<signed char>(); break;
    case 1: named<unsigned char>(); break;
    case 2: named<short>(); break;
    case 3: named<unsigned short>(); break;
    case 4: named<int>(); break;
    case 5: named<unsigned>(); break;
    case 6: named<long>(); break;
    case 7: named<unsigned long>(); break;
  }
}
void c07_ops() {
  switch (vf_pick("a_type", 0, 5)) {
    case 0: ops_all<signed char>(); break;
    case 1: ops_all<unsigned short>(); break;
    case 2: ops_all<int>(); break;
    case 3: ops_all<unsigned>(); break;
    case 4: ops_all<long>(); break;
    case 5: ops_all<unsigned long>(); break;
  }
}
}
