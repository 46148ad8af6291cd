// C27: max norm of a distributed matrix.
#include "algo.h"
#include <dlaf/auxiliary/norm.h>
#include <dlaf/auxiliary/norm/mc.h>
namespace dlaf::auxiliary::internal {
DLAF_NORM_ETI(, double)
DLAF_NORM_ETI(, std::complex<double>)
}
using namespace mx;
static double mag(double x) { return x < 0 ? -x : x; }
static double mag(Z x) { return std::imag(x) == 0. ? mag(std::real(x)) : mag(std::imag(x)); }
// one symbolic entry dominates the others, anywhere in the matrix; or all the entries are symbolic
template <class T> static void body(const Setup& s, blas::Uplo u, int64_t m, int64_t n, int64_t mb, int64_t nb, int root, int64_t kind) {
  Full<T> a(m, n);
  // entries with a real or an imaginary part only: their modulus has an exact expression
  for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) a(i, j) = turn(T(vf_real("A", 0)), i + j + kind);
  bool called = false;
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> ma(s.dis(m, n, mb, nb, rank));
    put(ma, a);
    matrix::Matrix<const T, Device::CPU>& ca = ma;
    const comm::Index2D r(root % s.P, root / s.P);
    const double v = tt::sync_wait(auxiliary::max_norm<Backend::MC, Device::CPU, T>(*g, r, u, ca));
    if (rank == r) {
      called = true;
      bool hit = m * n == 0;
      if (m * n == 0) same(v, 0., "the norm of an empty matrix is 0");
      else {
        for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i)
          if (in_part(u, i, j)) {
            const double x = mag(a(i, j));
            vf_check(v >= x, "no element of the part is larger than the norm");
            if (!hit && v == x) hit = true;
          }
        vf_check(hit, "the norm is the modulus of an element of the part");
      }
    }
    expect(ma, a, "the matrix is not modified");
  });
  vf_check(called, "the requested rank has the result");
  vf_cover(m * n == 0 ? "empty" : "norm");
}
extern "C" void c27_norm() {
  const bool cplx = vf_pick("complex", 0, 1);
  const Setup s = pick_setup(1, vf_param("grids", 4));
  const int root = s.P * s.Q > 1 ? (int) vf_pick("root", 0, s.P * s.Q - 1) : 0;
  const bool low = vf_pick("lower", 0, 1);
  const int64_t k = vf_pick("size", 0, vf_param("sizes", 4));
  static const int64_t G[][4] = {{0, 2, 1, 2}, {2, 2, 1, 1}, {3, 1, 2, 1}, {1, 3, 1, 2}, {0, 0, 2, 2}, {3, 2, 2, 1}, {2, 3, 1, 2}}, L[][2] = {{0, 1}, {2, 1}, {2, 2}, {1, 2}, {0, 2}, {3, 2}, {3, 1}};
  vf_shard();
  const int64_t m = low ? L[k][0] : G[k][0], n = low ? L[k][0] : G[k][1], mb = low ? L[k][1] : G[k][2], nb = low ? L[k][1] : G[k][3];
  const blas::Uplo u = low ? blas::Uplo::Lower : blas::Uplo::General;
  if (cplx) body<Z>(s, u, m, n, mb, nb, root, k); else body<double>(s, u, m, n, mb, nb, root, k);
}
