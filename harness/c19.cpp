// C19: triangular solver and triangular multiplication.
#include "algo.h"
#ifdef C19_SOLVE
#include <dlaf/solver/triangular.h>
#include <dlaf/solver/triangular/impl.h>
namespace dlaf::solver::internal {
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_SOLVER_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
#else
#include <dlaf/multiplication/triangular.h>
#include <dlaf/multiplication/triangular/impl.h>
namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_TRIANGULAR_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
#endif
using namespace mx;
struct Case { blas::Side side; blas::Uplo uplo; blas::Op op; blas::Diag diag; int64_t k, ka, o, ob; };
template <class T> static void body(const Setup& s, const Case& c) {
  const Full<T> a = gen_tri<T>("A", c.uplo, c.k);
  const bool left = c.side == blas::Side::Left;
  Full<T> b(left ? c.k : c.o, left ? c.o : c.k);
  b.fill("B");
  const T alpha = turn(SymOf<T>::nonzero("alpha"), 1);  // complex: imaginary, so that conjugation shows
  const Full<T> opa = op_of(c.op, triangle(c.uplo, c.diag, a));
  const int64_t mb = left ? c.ka : c.ob, nb = left ? c.ob : c.ka;
  Full<T> x(b.m, b.n);
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> ma(s.dis(c.k, c.k, c.ka, c.ka, rank)), mb_(s.dis(b.m, b.n, mb, nb, rank));
    put(ma, a);
    put(mb_, b);
    matrix::Matrix<const T, Device::CPU>& ca = ma;
#ifdef C19_SOLVE
    if (g) triangular_solver<Backend::MC, Device::CPU, T>(*g, c.side, c.uplo, c.op, c.diag, alpha, ca, mb_);
    else triangular_solver<Backend::MC, Device::CPU, T>(c.side, c.uplo, c.op, c.diag, alpha, ca, mb_);
#else
    if (g) triangular_multiplication<Backend::MC, Device::CPU, T>(*g, c.side, c.uplo, c.op, c.diag, alpha, ca, mb_);
    else triangular_multiplication<Backend::MC, Device::CPU, T>(c.side, c.uplo, c.op, c.diag, alpha, ca, mb_);
#endif
    expect(ma, a, "A is not modified");
    each(mb_, [&](int64_t i, int64_t j, T& v) { x(i, j) = v; });
  });
#ifdef C19_SOLVE
  const Full<T> lhs = left ? mult(opa, x) : mult(x, opa);
  for (int64_t j = 0; j < b.n; ++j) for (int64_t i = 0; i < b.m; ++i) same(lhs(i, j), mulv(alpha, b(i, j)), "op(A) X = alpha B");
#else
  const Full<T> rhs = left ? mult(opa, b) : mult(b, opa);
  for (int64_t j = 0; j < b.n; ++j) for (int64_t i = 0; i < b.m; ++i) same(x(i, j), mulv(alpha, rhs(i, j)), "the result is alpha op(A) B");
#endif
  if (b.m * b.n > 0) vf_cover("computed");
}
static void go(const Setup& s) {
  Case c;
  const bool cplx = vf_pick("complex", 0, 1);
  c.side = vf_pick("side", 0, 1) ? blas::Side::Right : blas::Side::Left;
  c.uplo = vf_pick("uplo", 0, 1) ? blas::Uplo::Upper : blas::Uplo::Lower;
  int64_t maxop = 2;
#ifndef C19_SOLVE
  if (s.dist()) maxop = 0;  // the distributed multiplication documents the other operations as not implemented
#endif
  const int64_t op = vf_pick("op", 0, maxop);
  c.op = op == 0 ? blas::Op::NoTrans : op == 1 ? blas::Op::Trans : blas::Op::ConjTrans;
  c.diag = vf_pick("unit", 0, 1) ? blas::Diag::Unit : blas::Diag::NonUnit;
  const int64_t sz = vf_pick("size case", 0, vf_param("cases", 3));
  // order of A, tile of A, other size of B, other tile of B
  static const int64_t t[][4] = {{3, 1, 2, 1}, {4, 2, 1, 2}, {3, 2, 3, 2}, {1, 2, 3, 1}, {5, 2, 3, 2}, {0, 1, 2, 1}, {2, 1, 0, 1}, {4, 1, 3, 1}, {5, 3, 4, 2}, {6, 2, 4, 3}, {5, 1, 2, 2}};
  c.k = t[sz][0]; c.ka = t[sz][1]; c.o = t[sz][2]; c.ob = t[sz][3];
  if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  if (cplx) body<Z>(s, c); else body<double>(s, c);
}
extern "C" void c19_local() { go(Setup{}); }
extern "C" void c19_dist() { go(pick_setup(1, vf_param("grids", 4))); }
