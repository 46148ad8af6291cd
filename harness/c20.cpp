// C20: triangular inverse and inverse from a Cholesky factor.
#include "algo.h"
#include <dlaf/inverse/triangular.h>
#include <dlaf/inverse/triangular/impl.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/cholesky/impl.h>
namespace dlaf::inverse::internal {
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_INVERSE_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, double)
DLAF_INVERSE_CHOLESKY_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
using namespace mx;
template <class T> static void identity(const Full<T>& p, const char* msg) {
  for (int64_t j = 0; j < p.n; ++j) for (int64_t i = 0; i < p.m; ++i) same(p(i, j), i == j ? T(1) : T(0), msg);
}
template <class T> static void body(const Setup& s, bool chol, blas::Uplo u, blas::Diag d, int64_t n, int64_t nb) {
  const Full<T> a = chol ? sym_tri<T>("factor", u, n) : gen_tri<T>("A", u, n);
  Full<T> x(n, n);
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> m(s.dis(n, n, nb, nb, rank));
    put(m, a);
    if (chol) {
      if (g) inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(*g, u, m);
      else inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(u, m);
    }
    else {
      if (g) triangular_inverse<Backend::MC, Device::CPU, T>(*g, u, d, m);
      else triangular_inverse<Backend::MC, Device::CPU, T>(u, d, m);
    }
    each(m, [&](int64_t i, int64_t j, T& v) {
      x(i, j) = v;
      if (!in_part(u, i, j)) same(v, a(i, j), "the other triangle is not modified");
      if (!chol && d == blas::Diag::Unit && i == j) same(v, a(i, j), "a unit diagonal is not modified");
    });
  });
  if (chol) {
    const Full<T> f = triangle(u, blas::Diag::NonUnit, a);
    identity(mult(u == blas::Uplo::Lower ? mult(f, ctrans(f)) : mult(ctrans(f), f), hermitian(u, x)), "the result is the inverse of the factored matrix");
    for (int64_t i = 0; i < n; ++i) same(T(std::imag(x(i, i))), T(0), "the diagonal is real");
  }
  else
    identity(mult(triangle(u, d, a), triangle(u, d, x)), "the result is the inverse of the triangular matrix");
  if (n > 0) vf_cover(chol ? "inverse of the factored matrix" : "inverse of the triangular matrix");
}
static void go(const Setup& s) {
  const bool cplx = vf_pick("complex", 0, 1), chol = vf_pick("from Cholesky factor", 0, 1);
  const blas::Uplo u = vf_pick("uplo", 0, 1) ? blas::Uplo::Upper : blas::Uplo::Lower;
  const blas::Diag d = !chol && vf_pick("unit", 0, 1) ? blas::Diag::Unit : blas::Diag::NonUnit;
  const int64_t nb = vf_pick("tile", 1, vf_param("nb", 2)), n = vf_pick("n", 0, vf_param("n", 5));
  if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  if (cplx) body<Z>(s, chol, u, d, n, nb); else body<double>(s, chol, u, d, n, nb);
}
extern "C" void c20_local() { go(Setup{}); }
extern "C" void c20_dist() { go(pick_setup(1, vf_param("grids", 4))); }
