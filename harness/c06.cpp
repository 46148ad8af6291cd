// C06: common/index2d.h and common/range2d.h
#include "vf.h"
#include <climits>
#include <limits>
#include <dlaf/common/index2d.h>
#include <dlaf/common/range2d.h>
using dlaf::SizeType;
using namespace dlaf::common;
using dlaf::Coord;
namespace {
struct Tag {};
template <class I> using Ix = Index2D<I, Tag>;
template <class I> using Sz = Size2D<I, Tag>;
template <class I> I nd(const char* n, int64_t lo, int64_t hi);
template <> int64_t nd<int64_t>(const char* n, int64_t lo, int64_t hi) { return vf_i64(n, lo, hi); }
template <> int32_t nd<int32_t>(const char* n, int64_t lo, int64_t hi) { return vf_i32(n, lo, hi); }
template <> int16_t nd<int16_t>(const char* n, int64_t lo, int64_t hi) { return vf_i16(n, lo, hi); }
template <> int8_t nd<int8_t>(const char* n, int64_t lo, int64_t hi) { return vf_i8(n, lo, hi); }
template <class I> constexpr int64_t MX = std::numeric_limits<I>::max();
template <class I> constexpr int64_t MN = std::numeric_limits<I>::min();

template <class I> void predicates() {
  const I r = nd<I>("r", MN<I>, MX<I>), c = nd<I>("c", MN<I>, MX<I>);
  Ix<I> x(r, c);
  Sz<I> z(r, c);
  vf_cover("predicates");
  vf_check(x.row() == r && x.col() == c && z.rows() == r && z.cols() == c, "constructor order");
  vf_check(x.template get<Coord::Row>() == r && x.template get<Coord::Col>() == c && x.get(Coord::Row) == r && x.get(Coord::Col) == c, "get");
  vf_check(x.isValid() == (r >= 0 && c >= 0) && z.isValid() == (r >= 0 && c >= 0), "isValid");
  vf_check(Ix<I>(Coord::Row, r, c) == x && Ix<I>(Coord::Col, c, r) == x, "component constructor");
  vf_check(Ix<I>(Coord::Row, r).col() == 0 && Ix<I>(Coord::Row, r).row() == r && Ix<I>(Coord::Col, c).row() == 0 && Ix<I>(Coord::Col, c).col() == c, "component constructor, other is 0");
  vf_check(Ix<I>(std::array<I, 2>{r, c}) == x && Sz<I>(std::array<I, 2>{r, c}) == z, "array constructor");
  Ix<I> def;
  vf_check(!def.isValid(), "default index is invalid");
  auto t = transposed(x);
  vf_check(t.row() == c && t.col() == r, "transposed");
  auto tz = transposed(z);
  vf_check(tz.rows() == c && tz.cols() == r, "transposed size");
  vf_check(indexFromOrigin(z).row() == r && indexFromOrigin(z).col() == c && sizeFromOrigin(x).rows() == r && sizeFromOrigin(x).cols() == c, "origin conversions");
  const I br = nd<I>("br", MN<I>, MX<I>), bc = nd<I>("bc", MN<I>, MX<I>);
  Ix<I> y(br, bc);
  Sz<I> b(br, bc);
  vf_check((x == y) == (r == br && c == bc) && (x != y) == !(r == br && c == bc), "index equality");
  vf_check((z == b) == (r == br && c == bc) && (z != b) == !(r == br && c == bc), "size equality");
  vf_check(x.isIn(b) == (r >= 0 && c >= 0 && r < br && c < bc), "isIn");
  vf_check(x.isInOrOn(b) == (r >= 0 && c >= 0 && r <= br && c <= bc), "isInOrOn");
  if (b.isValid()) vf_check(b.isEmpty() == (br == 0 || bc == 0), "isEmpty");
}
template <class I> void arithmetic() {
  const int64_t h = MX<I> / 2;
  const I a = nd<I>("a", -h, h), b = nd<I>("b", -h, h), c = nd<I>("c", -h, h), d = nd<I>("d", -h, h);
  Ix<I> x(a, b), y(c, d);
  Sz<I> s(c, d), t(a, b);
  vf_cover("arithmetic");
  vf_check(x + s == Ix<I>(I(a + c), I(b + d)), "index + size");
  vf_check(x - s == Ix<I>(I(a - c), I(b - d)), "index - size");
  vf_check(x - y == Sz<I>(I(a - c), I(b - d)), "index - index");
  vf_check(t - s == Sz<I>(I(a - c), I(b - d)), "size - size");
  vf_check(t + s == Sz<I>(I(a + c), I(b + d)), "size + size");
  const I i = nd<I>("i", -h, MX<I>), j = nd<I>("j", -h, MX<I>);
  Ix<I> q(i, j);
  vf_assume(x.isValid() && s.isValid());
  vf_cover("sub");
  vf_check(q.isInSub(x, s) == (i >= a && j >= b && int64_t(i) < int64_t(a) + c && int64_t(j) < int64_t(b) + d), "isInSub");
}

static const int64_t LD[] = {1, 2, 3, 5, 7, 46341, (1ll << 31) - 1, 4, 6, 8, 9, 10, 11, 16, 31, 100, 127, 255, 1000, 32767, 65536, 1 << 20, 1 << 30};
template <class I> void linear() {
  const bool row_major = vf_pick("row_major", 0, 1);
  const int64_t k = LD[vf_pick("ld_idx", 0, vf_param("n_ld", 7) - 1)];
  if (k > MX<I>) vf_end();
  vf_shard();
  const I ld = I(k);
  const int64_t lim = (1ll << 62) / k;
  const I other = nd<I>("other", 1, lim < MX<I> ? lim : MX<I>);
  const auto ord = row_major ? Ordering::RowMajor : Ordering::ColumnMajor;
  const Sz<I> dims = row_major ? Sz<I>(other, ld) : Sz<I>(ld, other);
  const int64_t total = int64_t(other) * k;
  vf_check(dims.linear_size() == total, "linear_size");
  const I fast = nd<I>("fast", 0, k - 1);
  const I slow = nd<I>("slow", 0, MX<I>);
  vf_assume(slow < other);
  const Ix<I> idx = row_major ? Ix<I>(slow, fast) : Ix<I>(fast, slow);
  const SizeType l = computeLinearIndex<SizeType>(ord, idx, dims);
  vf_cover("linear");
  vf_check(l >= 0 && l < total, "linear index in range");
  vf_check(l == int64_t(slow) * k + fast, "linear index value");
  vf_check((row_major ? computeLinearIndexRowMajor<SizeType>(idx, dims) : computeLinearIndexColMajor<SizeType>(idx, dims)) == l, "dispatcher agrees");
  vf_check(computeLinearIndex<unsigned long>(ord, idx, dims) == (unsigned long) l, "unsigned result type");
  if (l <= INT_MAX) vf_check(computeLinearIndex<int>(ord, idx, dims) == l, "int result type");
  vf_check(computeCoords(ord, l, dims) == idx, "linear -> coords is the inverse");
  const SizeType m = vf_i64("m", 0, 1ll << 62);
  vf_assume(m < total);
  const Ix<I> q = computeCoords(ord, m, dims);
  vf_cover("coords");
  vf_check(q.isIn(dims), "coordinates inside the size");
  vf_check(computeLinearIndex<SizeType>(ord, q, dims) == m, "coords -> linear is the inverse");
}

template <class I> void range() {
  const int form = vf_pick("form", 0, 3);
  const int64_t k = vf_pick("zero_rows", 0, 1) ? 0 : LD[vf_pick("ld_idx", 0, vf_param("n_ld", 7) - 1)];
  if (k > MX<I>) vf_end();
  vf_shard();
  const I rows = I(k);
  const int64_t lim = k ? (1ll << 62) / k : 1ll << 62;
  const I cols = nd<I>("cols", 0, lim < MX<I> ? lim : MX<I>);
  const I r0 = form < 2 ? nd<I>("r0", 0, MX<I>) : I(0), c0 = form < 2 ? nd<I>("c0", 0, MX<I>) : I(0);
  vf_assume(int64_t(r0) <= MX<I> - k && int64_t(c0) <= MX<I> - int64_t(cols));
  const Ix<I> b(r0, c0);
  const Sz<I> s(rows, cols);
  auto rg = form == 0 ? iterate_range2d(b, s) : form == 1 ? iterate_range2d(b, b + s) : form == 2 ? iterate_range2d(s) : iterate_range2d(indexFromOrigin(s));
  const int64_t total = int64_t(cols) * k;
  vf_cover("range");
  vf_check(rg.end() - rg.begin() == total, "number of indices in the range");
  vf_check(rg.empty() == (total == 0), "empty");
  const Ix<I> p(nd<I>("pr", MN<I>, MX<I>), nd<I>("pc", MN<I>, MX<I>));
  vf_check(isIndexInRange(p, rg) == (p.row() >= r0 && p.col() >= c0 && int64_t(p.row()) - r0 < k && int64_t(p.col()) - c0 < cols), "isIndexInRange");
  if (total == 0) {
    vf_cover("empty range");
    return;
  }
  // k-th index of the range is its k-th element in column-major order
  const I i = nd<I>("i", 0, k - 1), j = nd<I>("j", 0, MX<I>);
  vf_assume(j < cols);
  const SizeType n = int64_t(j) * k + i;
  auto it = rg.begin() + n;
  vf_cover("element of range");
  vf_check((*it).row() == r0 + i && (*it).col() == c0 + j, "n-th index, column major");
  vf_check(it->row() == r0 + i && rg.begin()[n] == *it && (n + rg.begin()) == it, "access operators agree");
  vf_check(it != rg.end() && it < rg.end() && it <= rg.end() && rg.end() > it && rg.end() >= it && rg.begin() <= it && it - rg.begin() == n && (rg.end() - (total - n)) == it, "iterator order");
  auto nx = it;
  auto old = nx++;
  vf_check(old == it && *old == *it && nx - it == 1, "post-increment");
  if (n + 1 < total) {
    vf_cover("increment");
    const bool wrap = i + 1 == k;
    vf_check((*nx).row() == (wrap ? r0 : r0 + i + 1) && (*nx).col() == (wrap ? c0 + j + 1 : c0 + j), "increment moves down the column, then to the next one");
    auto pre = it;
    vf_check(*++pre == *nx && *--pre == *it && *(nx--) == *pre.operator++() && nx == it, "increment / decrement are inverse");
  }
  else vf_check(nx == rg.end(), "last + 1 is the end");
}
}
extern "C" {
void c06_pred_i8() { predicates<int8_t>(); }
void c06_pred_i32() { predicates<int>(); }
void c06_pred_i64() { predicates<SizeType>(); }
void c06_arith_i8() { arithmetic<int8_t>(); }
void c06_arith_i32() { arithmetic<int>(); }
void c06_arith_i64() { arithmetic<SizeType>(); }
void c06_linear_i8() { linear<int8_t>(); }
void c06_linear_i32() { linear<int>(); }
void c06_linear_i64() { linear<SizeType>(); }
void c06_range_i32() { range<int>(); }
void c06_range_i64() { range<SizeType>(); }
}
