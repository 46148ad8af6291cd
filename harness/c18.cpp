// C18: Cholesky factorisation.
#include "algo.h"
#include <dlaf/factorization/cholesky.h>
#include <dlaf/factorization/cholesky/impl.h>
namespace dlaf::factorization::internal {
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, double)
DLAF_FACTORIZATION_CHOLESKY_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
using namespace mx;
template <class T> static void factor(const Setup& s, blas::Uplo u, int64_t n, int64_t nb) {
  // every positive definite matrix is L L^H (U^H U) of a factor with positive diagonal
  const Full<T> f = sym_tri<T>("factor", u, n, false);
  Full<T> a = u == blas::Uplo::Lower ? mult(f, ctrans(f)) : mult(ctrans(f), f);
  for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < n; ++i) if (!in_part(u, i, j)) a(i, j) = SymOf<T>::any("unused triangle");
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> m(s.dis(n, n, nb, nb, rank));
    put(m, a);
    if (g) cholesky_factorization<Backend::MC, Device::CPU, T>(*g, u, m);
    else cholesky_factorization<Backend::MC, Device::CPU, T>(u, m);
    expect_part(m, u, f, a, "the factor is the Cholesky factor", "the other triangle is not modified");
  });
  if (n > 0) vf_cover("factorised");
}
static void go(bool cplx, const Setup& s) {
  const blas::Uplo u = vf_pick("uplo", 0, 1) ? blas::Uplo::Upper : blas::Uplo::Lower;
  const int64_t nb = vf_pick("tile", 1, vf_param("nb", 2)), n = vf_pick("n", 0, vf_param("n", 5));
  if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  if (cplx) factor<Z>(s, u, n, nb); else factor<double>(s, u, n, nb);
}
extern "C" void c18_local() { go(vf_pick("complex", 0, 1), Setup{}); }
extern "C" void c18_dist() { go(vf_pick("complex", 0, 1), pick_setup(1, vf_param("grids", 4))); }
