// C22: reduction of the generalised eigenproblem to standard form.
#include "algo.h"
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/gen_to_std/impl.h>
namespace dlaf::eigensolver::internal {
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, double)
DLAF_GENTOSTD_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
using namespace mx;
template <class T> static void body(const Setup& s, blas::Uplo u, int64_t n, int64_t nb) {
  const Full<T> f = sym_tri<T>("factor", u, n);
  Full<T> a(n, n), x(n, n);
  a.fill("A");
  for (int64_t i = 0; i < n; ++i) a(i, i) = T(std::real(a(i, i)));
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> ma(s.dis(n, n, nb, nb, rank)), mb(s.dis(n, n, nb, nb, rank));
    put(ma, a);
    put(mb, f);
    if (g) eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(*g, u, ma, mb);
    else eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(u, ma, mb);
    each(ma, [&](int64_t i, int64_t j, T& v) {
      x(i, j) = v;
      if (!in_part(u, i, j)) same(v, a(i, j), "the other triangle is not modified");
    });
    expect(mb, f, "the factor is not modified");
  });
  const Full<T> l = triangle(u, blas::Diag::NonUnit, f), h = hermitian(u, x), ha = hermitian(u, a);
  // Lower: X = inv(L) A inv(L^H);  Upper: X = inv(U^H) A inv(U)
  const Full<T> p = u == blas::Uplo::Lower ? mult(mult(l, h), ctrans(l)) : mult(mult(ctrans(l), h), l);
  for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < n; ++i) same(p(i, j), ha(i, j), "the result is the congruence of A by the inverse factor");
  if (n > 0) vf_cover("reduced");
}
static void go(const Setup& s) {
  const bool cplx = vf_pick("complex", 0, 1);
  const blas::Uplo u = vf_pick("uplo", 0, 1) ? blas::Uplo::Upper : blas::Uplo::Lower;
  const int64_t nb = vf_pick("tile", 1, vf_param("nb", 2)), n = vf_pick("n", 0, vf_param("n", 5));
  if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  if (cplx) body<Z>(s, u, n, nb); else body<double>(s, u, n, nb);
}
extern "C" void c22_local() { go(Setup{}); }
extern "C" void c22_dist() { go(pick_setup(1, vf_param("grids", 4))); }
