// C08: util_math.h splitting helpers
#include "vf.h"
#include <vector>
#include <dlaf/util_math.h>
using dlaf::SizeType;
static const int64_t DEN[] = {1, 2, 3, 5, 7, 64, 1000, 65536, 2147483647, (1ll << 31) + 9, (1ll << 40) + 1, 4, 6, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 100, 127, 255, 256, 1023, 4095, 46341, 1 << 20, (1ll << 33) - 1};
namespace {
template <class I> void ceildiv() {
  const int64_t k = DEN[vf_pick("den_idx", 0, vf_param("n_den", 11) - 1)];
  if ((uint64_t) k > (uint64_t) std::numeric_limits<I>::max()) vf_end();
  const I den = (I) k;
  const I num = (I) vf_i64("num", 0, (int64_t) std::min<uint64_t>((uint64_t) std::numeric_limits<I>::max(), (uint64_t) INT64_MAX) - k);
  const I q = dlaf::util::ceilDiv(num, den);
  vf_cover("ceilDiv");
  vf_check(q >= 0, "not negative");
  const uint64_t uq = (uint64_t) q, un = (uint64_t) num, uk = (uint64_t) k;   // un + uk < 2^63
  vf_check(uq <= un, "not above the numerator");
  const uint64_t lo = un / uk;
  vf_check(uq >= lo && uq - lo <= 1, "next to the quotient");
  vf_check(uq * uk >= un, "ceilDiv covers the numerator");
  vf_check(uq == 0 ? un == 0 : (uq - 1) * uk < un, "ceilDiv is the least such integer");
}
}
extern "C" {
void c08_ceildiv_i32() { ceildiv<int>(); }
void c08_ceildiv_i64() { ceildiv<SizeType>(); }
void c08_ceildiv_u32() { ceildiv<unsigned>(); }
void c08_ceildiv_u64() { ceildiv<std::size_t>(); }

void c08_splits() {
  const SizeType b = DEN[vf_pick("block_idx", 0, vf_param("n_b", 7) - 1)];
  const int blocks = vf_param("blocks", 4);
  vf_shard();
  const SizeType l = vf_i64("l", 1, blocks * b + (b > 1 ? 1 : 0));
  const SizeType o1 = vf_i64("o1", 0, b), o2 = vf_i64("o2", 0, b);
  std::vector<SizeType> s = dlaf::util::interleaveSplits(l, b, o1, o2);
  vf_cover("splits");
  vf_check(s.size() >= 2 && s.front() == 0 && s.back() == l, "first and last split");
  bool inc = true;
  for (std::size_t i = 1; i < s.size(); ++i) inc &= s[i - 1] < s[i];
  vf_check(inc, "splits strictly increase");
  const SizeType x = vf_i64("x", 1, blocks * b + b);
  vf_assume(x < l);
  bool member = false;
  for (std::size_t i = 0; i < s.size(); ++i) member |= s[i] == x;
  const bool want = (x >= o1 && (x - o1) % b == 0) | (x >= o2 && (x - o2) % b == 0);
  if (want) vf_cover("boundary");
  vf_check(member == want, "interior splits are exactly the block boundaries of both splittings");
}
void c08_percent() {
  const SizeType n = vf_i64("size", 0, 1ll << 40);
  const int64_t p1000 = vf_i64("permille", 0, 100000);   // percent = permille / 1000
  // the percentage is a rational with the given resolution; n small or p fixed keeps the product linear
  const int64_t fix = vf_pick("fixed", 0, vf_param("n_fixed", 8) - 1);
  static const int64_t P[] = {0, 100000, 50000, 33333, 1, 99999, 12500, 66667, 10000, 90000, 25000, 75000, 250, 500, 47, 31415};
  vf_assume(p1000 == P[fix]);
  const double percent = (double) P[fix] / 1000.0;
  const SizeType idx = dlaf::util::internal::percent_to_index(n, percent);
  vf_cover("percent");
  vf_check(idx >= 0 && idx <= n, "index inside the array");
  const int64_t scaled = n * P[fix], got = idx * 100000;   // below 2^57
  // nearest: |idx - n * percent / 100| <= 1/2 (slack: 100000 / 2 plus the representation error of percent)
  const int64_t slack = 50000 + 1 + (n >> 30);
  vf_check(got - scaled <= slack && scaled - got <= slack, "nearest index");
  if (P[fix] == 0) vf_check(idx == 0, "0 percent is 0");
  if (P[fix] == 100000) vf_check(idx == n, "100 percent is the size");
}
}
