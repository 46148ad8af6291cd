// C21: Hermitian and general matrix-matrix multiplication.
#include "algo.h"
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/hermitian/impl.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/general/impl.h>
namespace dlaf::multiplication::internal {
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_HERMITIAN_ETI(, Backend::MC, Device::CPU, std::complex<double>)
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, double)
DLAF_MULTIPLICATION_GENERAL_ETI(, Backend::MC, Device::CPU, std::complex<double>)
}
using namespace mx;
// scalars: symbolic, or one of the values the code treats specially
template <class T> static T scalar(const char* n, int64_t kind) { return kind == 0 ? SymOf<T>::any(n) : kind == 1 ? T(1) : T(0); }
template <class T> static void want(const Full<T>& c0, const Full<T>& ab, T alpha, T beta, const Full<T>& c, const char* msg) {
  for (int64_t j = 0; j < c.n; ++j) for (int64_t i = 0; i < c.m; ++i) same(c(i, j), mulv(alpha, ab(i, j)) + mulv(beta, c0(i, j)), msg);
}
template <class T> static void herm(const Setup& s, int64_t n, int64_t o, int64_t nb, int64_t ob, int64_t kb) {
  Full<T> a(n, n), b(n, o), c0(n, o), c(n, o);
  a.fill("A"); b.fill("B"); c0.fill("C");
  const T alpha = scalar<T>("alpha", 0), beta = scalar<T>("beta", kb);
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> ma(s.dis(n, n, nb, nb, rank)), mb(s.dis(n, o, nb, ob, rank)), mc(s.dis(n, o, nb, ob, rank));
    put(ma, a); put(mb, b); put(mc, c0);
    matrix::Matrix<const T, Device::CPU>&ca = ma, &cb = mb;
    if (g) hermitian_multiplication<Backend::MC, Device::CPU, T>(*g, blas::Side::Left, blas::Uplo::Lower, alpha, ca, cb, beta, mc);
    else hermitian_multiplication<Backend::MC, Device::CPU, T>(blas::Side::Left, blas::Uplo::Lower, alpha, ca, cb, beta, mc);
    expect(ma, a, "A is not modified");
    expect(mb, b, "B is not modified");
    each(mc, [&](int64_t i, int64_t j, T& v) { c(i, j) = v; });
  });
  want(c0, mult(hermitian(blas::Uplo::Lower, a), b), alpha, beta, c, "C is alpha A B + beta C");
  if (n * o > 0) vf_cover("hermitian");
}
struct Win { int64_t i, j, m, n; };
template <class T> static Full<T> sub(const Full<T>& a, const Win& w) { Full<T> r(w.m, w.n); for (int64_t j = 0; j < w.n; ++j) for (int64_t i = 0; i < w.m; ++i) r(i, j) = a(i + w.i, j + w.j); return r; }
// C(wc) = alpha A(wa) B(wb) + beta C(wc)
template <class T> static void gen(const Setup& s, int64_t M, int64_t N, int64_t K, int64_t mb, int64_t nb, int64_t kb, Win wa, Win wb, Win wc, int64_t ka, int64_t kbeta) {
  using matrix::internal::MatrixRef;
  Full<T> a(M, K), b(K, N), c0(M, N), c(M, N);
  a.fill("A"); b.fill("B"); c0.fill("C");
  const T alpha = scalar<T>("alpha", ka), beta = scalar<T>("beta", kbeta);
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> ma(s.dis(M, K, mb, kb, rank)), mb_(s.dis(K, N, kb, nb, rank)), mc(s.dis(M, N, mb, nb, rank));
    put(ma, a); put(mb_, b); put(mc, c0);
    {
      MatrixRef<const T, Device::CPU> ra(ma, {GlobalElementIndex(wa.i, wa.j), GlobalElementSize(wa.m, wa.n)}), rb(mb_, {GlobalElementIndex(wb.i, wb.j), GlobalElementSize(wb.m, wb.n)});
      MatrixRef<T, Device::CPU> rc(mc, {GlobalElementIndex(wc.i, wc.j), GlobalElementSize(wc.m, wc.n)});
      if (g) {
        auto rp = g->row_communicator_pipeline();
        auto cp = g->col_communicator_pipeline();
        multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(rp, cp, alpha, ra, rb, beta, rc);
      }
      else multiplication::internal::generalMatrix<Backend::MC, Device::CPU, T>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ra, rb, beta, rc);
    }
    expect(ma, a, "A is not modified");
    expect(mb_, b, "B is not modified");
    each(mc, [&](int64_t i, int64_t j, T& v) {
      c(i, j) = v;
      if (i < wc.i || i >= wc.i + wc.m || j < wc.j || j >= wc.j + wc.n) same(v, c0(i, j), "elements outside the sub-range are not modified");
    });
  });
  want(sub(c0, wc), mult(sub(a, wa), sub(b, wb)), alpha, beta, sub(c, wc), "C is alpha A B + beta C");
  if (wc.m * wc.n > 0) vf_cover("general");
}
static void go(const Setup& s) {
  const bool cplx = vf_pick("complex", 0, 1);
  if (vf_pick("hermitian", 0, 1)) {
    const int64_t kb = vf_pick("beta kind", 0, s.dist() ? 0 : 2), nb = vf_pick("tile", 1, 2), n = vf_pick("n", 0, vf_param("n", 5));
    const int64_t o = vf_pick("other case", 0, 2);  // columns of B and C: 3 in tiles of 2, 2 in tiles of 1, 0
    if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
    vf_shard();
    static const int64_t O[][2] = {{3, 2}, {2, 1}, {0, 1}};
    if (cplx) herm<Z>(s, n, O[o][0], nb, O[o][1], kb); else herm<double>(s, n, O[o][0], nb, O[o][1], kb);
  }
  else {
    // whole matrices; windows that start and end at any element of the tile grid; windows with partial first tiles;
    const int64_t k = vf_pick("window case", 0, vf_param("windows", 6));
    const int64_t ka = vf_pick("alpha kind", 0, s.dist() ? 0 : 2), kb = vf_pick("beta kind", 0, s.dist() ? 1 : 2);
    if (!s.dist()) mini::policy = (int) vf_pick("scheduler", 0, 1);
    vf_shard();
    struct C { int64_t M, N, K, mb, nb, kb; Win a, b, c; };
    static const C t[] = {
        {3, 3, 4, 2, 1, 2, {0, 0, 3, 4}, {0, 0, 4, 3}, {0, 0, 3, 3}},  // whole
        {4, 4, 5, 2, 2, 2, {2, 2, 2, 3}, {2, 2, 3, 2}, {2, 2, 2, 2}},  // trailing tiles
        {4, 3, 4, 2, 2, 2, {1, 1, 3, 2}, {1, 1, 2, 2}, {1, 1, 3, 2}},  // windows inside tiles
        {2, 2, 2, 1, 1, 1, {0, 0, 2, 0}, {0, 0, 0, 2}, {0, 0, 2, 2}},  // empty product
        {3, 3, 3, 2, 2, 2, {0, 0, 0, 3}, {0, 0, 3, 3}, {0, 0, 0, 3}},  // nothing to compute
        {5, 3, 3, 2, 3, 1, {0, 1, 5, 2}, {1, 0, 2, 3}, {0, 0, 5, 3}},  // different tile sizes
        {4, 4, 4, 1, 1, 1, {1, 0, 3, 3}, {0, 1, 3, 2}, {1, 1, 3, 2}},  // more tiles than processes
    };
    const C& c = t[k];
    if (cplx) gen<Z>(s, c.M, c.N, c.K, c.mb, c.nb, c.kb, c.a, c.b, c.c, ka, kb); else gen<double>(s, c.M, c.N, c.K, c.mb, c.nb, c.kb, c.a, c.b, c.c, ka, kb);
  }
}
extern "C" void c21_local() { go(Setup{}); }
extern "C" void c21_dist() { go(pick_setup(1, vf_param("grids", 4))); }
