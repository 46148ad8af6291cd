// C26: row and column permutations.
#include "algo.h"
#include <dlaf/permutations/general.h>
#include <dlaf/permutations/general/impl.h>
namespace dlaf::permutations::internal {
DLAF_PERMUTATIONS_GENERAL_ETI(, Backend::MC, Device::CPU, double)
}
using namespace mx;
template <Coord C> static void body(const Setup& s, int64_t n, int64_t nb, int64_t tb, int64_t te) {
  Full<double> in(n, n), out(n, n);
  in.fill("in");
  out.fill("out");
  const int64_t b = tb * nb < n ? tb * nb : n, e = te * nb < n ? te * nb : n, k = e - b;
  // any permutation of the range; entries outside the range are not indices at all
  int64_t p[16];
  for (int64_t i = 0; i < n; ++i) {
    if (i < b || i >= e) { p[i] = -1000 - i; continue; }
    p[i] = vf_i64("perm", 0, k - 1);
    for (int64_t j = b; j < i; ++j) vf_assume(p[i] != p[j]);
  }
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<double> mi(s.dis(n, n, nb, nb, rank)), mo(s.dis(n, n, nb, nb, rank));
    Mat<SizeType> mp(Distribution(GlobalElementSize(n, 1), TileElementSize(nb, 1), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)));
    put(mi, in);
    put(mo, out);
    each(mp, [&](int64_t i, int64_t, SizeType& x) { x = p[i]; });
    matrix::Matrix<const double, Device::CPU>& ci = mi;
    matrix::Matrix<const SizeType, Device::CPU>& cp = mp;
    if (g) permutations::permute<Backend::MC, Device::CPU, double, C>(*g, tb, te, cp, ci, mo);
    else permutations::permute<Backend::MC, Device::CPU, double, C>(tb, te, cp, ci, mo);
    expect(mi, in, "the input is not modified");
    each(mp, [&](int64_t i, int64_t, SizeType& x) { vf_check(x == p[i], "the index array is not modified"); });
    each(mo, [&](int64_t i, int64_t j, double& v) {
      const bool inside = i >= b && i < e && j >= b && j < e;
      if (!inside) same(v, out(i, j), "elements outside the range are not modified");
      else if (C == Coord::Row) same(v, in(b + p[i], j), "row i of the range is the row named by entry i");
      else same(v, in(i, b + p[j]), "column j of the range is the column named by entry j");
    });
  });
  vf_cover(k == 0 ? "empty range" : "permuted");
}
static void go(const Setup& s) {
  const bool row = vf_pick("rows", 0, 1);
  static const int64_t t[][4] = {{3, 2, 0, 2}, {4, 1, 1, 4}, {4, 2, 0, 1}, {3, 1, 2, 2}, {4, 2, 0, 2}, {5, 2, 1, 3}, {3, 1, 0, 3}, {4, 3, 0, 2}, {5, 2, 0, 2}, {6, 2, 1, 3}};  // order, tile, first and last tile
  const int64_t k = vf_pick("range", 0, vf_param("ranges", 7));
  if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  if (row) body<Coord::Row>(s, t[k][0], t[k][1], t[k][2], t[k][3]); else body<Coord::Col>(s, t[k][0], t[k][1], t[k][2], t[k][3]);
}
extern "C" void c26_local() { go(Setup{}); }
extern "C" void c26_dist() { go(pick_setup(1, vf_param("grids", 4))); }
