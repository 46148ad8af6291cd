// C09: data descriptors, copies between them and temporary buffers.
#include "vf.h"
#include <dlaf/common/data_descriptor.h>
using namespace dlaf::common;
using dlaf::SizeType;
static const int64_t BS[] = {1, 2, 3, 7, 64, 1000, 65537, 4, 5, 8, 16, 31, 100, 4096, 1 << 20, 2147483647};
static const int64_t GAP[] = {0, 1, 5, 1 << 20, 2, 3, 63, 1000, 2147483647};
static long MEM[128], OUT[128];
namespace {
// element k of a descriptor (block size known to be the constant bs or the total)
template <class D> int64_t offset(const D& d, int64_t i, int64_t j, int64_t bs) {
  // position i * bs + j among the reported elements
  const int64_t k = i * bs + j;
  if (d.nblocks() == 1) return k;
  const int64_t b = vf_concretize(d.blocksize());
  return k / b * d.stride() + k % b;
}
template <class D> void accessors(const D& d, const void* ptr, int64_t nb, int64_t bs, int64_t st) {
  vf_check(d.data() == ptr, "data pointer");
  vf_check(data_pointer(d) == ptr && data_nblocks(d) == d.nblocks() && data_blocksize(d) == d.blocksize() && data_stride(d) == d.stride() && data_count(d) == d.count() && data_iscontiguous(d) == d.is_contiguous(), "free accessors agree with the members");
  vf_check(d.count() == nb * bs, "total element count");
  vf_check(d.nblocks() == 1 ? d.blocksize() == d.count() : d.nblocks() >= 1 && (d.blocksize() == bs && d.nblocks() == nb), "blocks times block size is the element count");
  vf_check(d.is_contiguous() == (nb == 1 || st == bs), "contiguity");
  vf_check(!d.is_contiguous() || (d.nblocks() == 1 && d.blocksize() == d.count() && d.stride() == 0), "a contiguous description is a single block");
  const int64_t i = vf_i64("i", 0, 1ll << 31), j = vf_i64("j", 0, 1ll << 31);
  vf_assume(i < nb && j < bs);
  vf_check(offset(d, i, j, bs) == i * st + j || (nb == 1 && offset(d, i, j, bs) == j), "element position");
  if (d.is_contiguous()) vf_cover("contiguous"); else vf_cover("strided");
}
struct Shape { int64_t nb, bs, st; };
// all shapes with at most N elements; the gap is one of 0, 1, 2
Shape pick_shape(const char* a, const char* b, const char* c, int64_t n) {
  Shape s;
  s.nb = vf_pick(a, 1, n);
  s.bs = vf_pick(b, 1, n);
  if (s.nb * s.bs > n) vf_end();
  const int64_t g = vf_pick(c, 0, 2);
  if (s.nb == 1 && g != 0) vf_end();
  s.st = s.bs + g;
  return s;
}
int64_t at(const Shape& s, int64_t k) { return k / s.bs * s.st + k % s.bs; }
void fill(long* m, const char* name) { for (int i = 0; i < 128; ++i) m[i] = i < 40 ? vf_i64(name, -1000000, 1000000) : -i; }
}
extern "C" {
void c09_accessors() {
  const int64_t bs = BS[vf_pick("bs", 0, vf_param("n_bs", 7) - 1)];
  const int64_t st = bs + GAP[vf_pick("gap", 0, vf_param("n_gap", 4) - 1)];
  vf_shard();
  const int64_t nb = vf_i64("nblocks", 1, 1ll << 31);
  switch (vf_pick("form", 0, 3)) {
    case 0: { DataDescriptor<long> d(MEM, nb, bs, st); accessors(d, MEM, nb, bs, st); vf_check(d == d && !(d != d), "equality"); break; }
    case 1: { DataDescriptor<long> e(MEM, nb, bs, st); DataDescriptor<const long> d(e); accessors(d, MEM, nb, bs, st); break; }
    case 2: { auto d = make_data(MEM + 3, nb, bs, st); auto e = make_data(std::as_const(d)); accessors(e, MEM + 3, nb, bs, st); break; }
    case 3: { auto d = create_data(static_cast<const long*>(MEM), nb); accessors(d, MEM, 1, nb, nb); break; }
  }
}
void c09_degenerate() {
  DataDescriptor<long> n;
  vf_check(n.data() == nullptr && n.count() == 0, "null descriptor");
  const int64_t bs = vf_i64("bs", 0, 1000000), st = vf_i64("st", 0, 1ll << 40);
  DataDescriptor<long> one(MEM, 1, bs, st);
  vf_check(one.nblocks() == 1 && one.blocksize() == bs && one.count() == bs && one.is_contiguous() && one.stride() == 0, "single block");
  vf_cover("single block");
  const int64_t nb = vf_i64("nb", 2, 1 << 20);
  DataDescriptor<long> e(MEM, nb, 0, st);
  vf_check(e.count() == 0, "empty blocks");
  vf_cover("empty blocks");
  static long arr[9];
  auto a = make_data(arr, SizeType(9));
  vf_check(a.data() == arr && a.count() == 9 && a.is_contiguous(), "array");
  DataDescriptor<long[9]> b(arr);
  vf_check(b.data() == arr && b.count() == 9 && b.is_contiguous(), "bounded array");
  // equality is equality of the description
  const int64_t p = vf_pick("p", 0, 1), q = vf_pick("q", 0, 1), n1 = vf_i64("n1", 2, 9), n2 = vf_i64("n2", 2, 9), b1 = vf_i64("b1", 1, 9), b2 = vf_i64("b2", 1, 9), s1 = vf_i64("s1", 10, 20), s2 = vf_i64("s2", 10, 20);
  DataDescriptor<long> x(MEM + p, n1, b1, s1), y(MEM + q, n2, b2, s2);
  vf_check((x == y) == (p == q && n1 == n2 && b1 == b2 && s1 == s2), "equality of descriptors");
  vf_check((x != y) == !(x == y), "inequality of descriptors");
  // violated preconditions stop the program
  vf_allow_abort(1);
  const int64_t bad = vf_i64("bad", -1000, -1);
  switch (vf_pick("which", 0, 2)) {
    case 0: { DataDescriptor<long> z(MEM, bad, 1, 2); break; }
    case 1: { DataDescriptor<long> z(MEM, 2, bad, 2); break; }
    case 2: { DataDescriptor<long> z(MEM, 2, 1, bad); break; }
  }
  vf_fail("negative sizes are stopped");
}
void c09_copy() {
  const int64_t n = vf_param("n", 6);
  const Shape s = pick_shape("s_nb", "s_bs", "s_gap", n);
  const Shape d = pick_shape("d_nb", "d_bs", "d_gap", n);
  vf_shard();
  if (s.nb * s.bs != d.nb * d.bs) vf_end();
  const int64_t cnt = s.nb * s.bs;
  fill(MEM, "in");
  fill(OUT, "out");
  static long m0[128], o0[128];
  for (int i = 0; i < 128; ++i) { m0[i] = MEM[i]; o0[i] = OUT[i]; }
  const int64_t so = 3, dof = 5;
  if (vf_pick("const", 0, 1)) copy(DataDescriptor<const long>(DataDescriptor<long>(MEM + so, s.nb, s.bs, s.st)), DataDescriptor<long>(OUT + dof, d.nb, d.bs, d.st));
  else copy(DataDescriptor<long>(MEM + so, s.nb, s.bs, s.st), DataDescriptor<long>(OUT + dof, d.nb, d.bs, d.st));
  vf_cover("copy");
  static bool written[128];
  for (int i = 0; i < 128; ++i) written[i] = false;
  bool ok = true, src = true, rest = true;
  for (int64_t k = 0; k < cnt; ++k) {
    ok &= OUT[dof + at(d, k)] == m0[so + at(s, k)];
    written[dof + at(d, k)] = true;
  }
  vf_check(ok, "element k of the source becomes element k of the destination");
  for (int i = 0; i < 128; ++i) { src &= MEM[i] == m0[i]; if (!written[i]) rest &= OUT[i] == o0[i]; }
  vf_check(src, "the source is unchanged");
  vf_check(rest, "no other element is touched");
}
void c09_contiguous() {
  const int64_t n = vf_param("n", 8);
  const Shape s = pick_shape("s_nb", "s_bs", "s_gap", n);
  vf_shard();
  fill(MEM, "in");
  static long m0[128];
  for (int i = 0; i < 128; ++i) m0[i] = MEM[i];
  DataDescriptor<long> d(MEM + 2, s.nb, s.bs, s.st);
  Buffer<long> buf;
  vf_check(!buf && buf.count() == 0, "an empty buffer is not allocated");
  auto c = make_contiguous(d, buf);
  vf_check(c.is_contiguous() && c.count() == s.nb * s.bs, "contiguous description of the same number of elements");
  if (d.is_contiguous()) {
    vf_cover("already contiguous");
    vf_check(!buf && c == d, "contiguous data is used in place");
  }
  else {
    vf_cover("buffer");
    vf_check(buf && c.data() == buf.data() && buf.count() == d.count() && buf.is_contiguous(), "strided data gets a buffer of the right size");
    copy(d, buf);
    copy(d, c);
    bool ok = true;
    for (int64_t k = 0; k < c.count(); ++k) ok &= c.data()[k] == m0[2 + at(s, k)];
    vf_check(ok, "buffer holds the elements in order");
    for (int64_t k = 0; k < c.count(); ++k) buf.data()[k] = k + 7;
    copy(buf, d);
    bool back = true;
    for (int64_t k = 0; k < c.count(); ++k) { back &= MEM[2 + at(s, k)] == k + 7; m0[2 + at(s, k)] = k + 7; }
    for (int i = 0; i < 128; ++i) back &= MEM[i] == m0[i];
    vf_check(back, "copy back from the buffer touches exactly the elements");
    Buffer<long> other(std::move(buf));
    vf_check(other && other.data() == c.data() && other.count() == d.count(), "moving a buffer keeps its memory");
  }
  // stand-alone buffers
  const int64_t k = vf_pick("size", 1, 9);
  Buffer<long> b(k);
  vf_check(b && b.count() == k && b.is_contiguous() && b.nblocks() == 1, "allocated buffer");
  for (int64_t i = 0; i < k; ++i) b.data()[i] = i;
  auto t = create_temporary_buffer(DataDescriptor<const long>(d));
  vf_check(t && t.count() == d.count(), "temporary buffer has the size of the data");
  for (int64_t i = 0; i < t.count(); ++i) t.data()[i] = i;
}
}
