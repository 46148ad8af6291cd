// Reference BLAS / LAPACK used in place of the vendor library: textbook definitions, arguments checked as the
// real libraries do, parts of the arguments that the routines do not reference are not read.
#include "vf.h"
#include <blas.hh>
#include <cmath>
#include <complex>
#include <lapack.hh>
typedef int64_t I;
typedef std::complex<double> Z;
namespace {
template <class T> struct RealOf { using type = T; };
template <class T> struct RealOf<std::complex<T>> { using type = T; };
template <class T> using Rl = typename RealOf<T>::type;
inline double mul(double a, double b) { return a * b; }
inline Z mul(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline Z mul(double a, Z b) { return Z(a * b.real(), a * b.imag()); }
// a symbolic scalar is used as it is (its special values give the same exact result)
inline bool eq(double x, double k) { return vf_known(x) && x == k; }
inline bool eq(Z x, double k) { return vf_known(x.real()) && vf_known(x.imag()) && x.real() == k && x.imag() == 0.; }
inline double div(double a, double b) { return a / b; }
inline Z div(Z a, Z b) { if (eq(b.imag(), 0.)) return Z(a.real() / b.real(), a.imag() / b.real()); double d = b.real() * b.real() + b.imag() * b.imag(); Z n = mul(a, Z(b.real(), -b.imag())); return Z(n.real() / d, n.imag() / d); }
inline double cj(double a) { return a; }
inline Z cj(Z a) { return Z(a.real(), -a.imag()); }
inline double re(double a) { return a; }
inline double re(Z a) { return a.real(); }
inline double sq(double a) { return a * a; }
inline double sq(Z a) { return a.real() * a.real() + a.imag() * a.imag(); }
inline double mod(double a) { return std::fabs(a); }
inline double mod(Z a) { return std::hypot(a.real(), a.imag()); }
void req(bool c, const char* m) { vf_check(c, m); }
void ldok(I ld, I rows) { req(ld >= (rows > 1 ? rows : 1), "BLAS: leading dimension is large enough"); }
template <class T> struct Cz { const T* p; I ld; blas::Op op; T operator()(I i, I j) const { return op == blas::Op::NoTrans ? p[i + j * ld] : op == blas::Op::Trans ? p[j + i * ld] : cj(p[j + i * ld]); } };
template <class T> Cz<T> view(const T* p, I ld, blas::Op op, I m, I n) { ldok(ld, op == blas::Op::NoTrans ? m : n); return {p, ld, op}; }
// element of a Hermitian matrix stored in one triangle
template <class T> T herm(const T* a, I ld, blas::Uplo u, I i, I j) {
  if (i == j) return T(re(a[i + i * ld]));
  return (u == blas::Uplo::Lower) == (i > j) ? a[i + j * ld] : cj(a[j + i * ld]);
}
// element of op(A), A triangular
template <class T> T tri(const T* a, I ld, blas::Uplo u, blas::Op op, blas::Diag d, I i, I j) {
  const bool up = (u == blas::Uplo::Upper) == (op == blas::Op::NoTrans);
  if (i == j) { if (d == blas::Diag::Unit) return T(1); }
  else if (up != (i < j)) return T(0);
  T v = op == blas::Op::NoTrans ? a[i + j * ld] : a[j + i * ld];
  return op == blas::Op::ConjTrans ? cj(v) : v;
}
bool is_up(blas::Uplo u, blas::Op op) { return (u == blas::Uplo::Upper) == (op == blas::Op::NoTrans); }
template <class T> T* tmp(I n) { return new T[n > 0 ? n : 1]; }
template <class T, class B> void scale_add(T& c, T v, B beta) { if (eq(beta, 0.)) c = v; else if (eq(beta, 1.)) c = c + v; else c = mul(beta, c) + v; }
void col(blas::Layout l) { req(l == blas::Layout::ColMajor, "column-major layout"); }
template <class T> void gemm_(blas::Op ta, blas::Op tb, I m, I n, I k, T alpha, const T* a, I lda, const T* b, I ldb, T beta, T* c, I ldc) {
  req(m >= 0 && n >= 0 && k >= 0, "BLAS: sizes are not negative");
  auto A = view(a, lda, ta, m, k); auto B = view(b, ldb, tb, k, n);
  ldok(ldc, m);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < m; ++i) {
      T s(0);
      if (!eq(alpha, 0.)) for (I l = 0; l < k; ++l) s += mul(A(i, l), B(l, j));
      scale_add(c[i + j * ldc], eq(alpha, 1.) ? s : mul(alpha, s), beta);
    }
}
template <class T> void hemm_(blas::Side side, blas::Uplo u, I m, I n, T alpha, const T* a, I lda, const T* b, I ldb, T beta, T* c, I ldc) {
  ldok(lda, side == blas::Side::Left ? m : n); ldok(ldb, m); ldok(ldc, m);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < m; ++i) {
      T s(0);
      if (side == blas::Side::Left) for (I l = 0; l < m; ++l) s += mul(herm(a, lda, u, i, l), b[l + j * ldb]);
      else for (I l = 0; l < n; ++l) s += mul(b[i + l * ldb], herm(a, lda, u, l, j));
      scale_add(c[i + j * ldc], mul(alpha, s), beta);
    }
}
template <class T> void herk_(blas::Uplo u, blas::Op op, I n, I k, Rl<T> alpha, const T* a, I lda, Rl<T> beta, T* c, I ldc) {
  auto A = view(a, lda, op, n, k); ldok(ldc, n);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < n; ++i) {
      if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
      T s(0);
      for (I l = 0; l < k; ++l) s += i == j ? T(sq(A(i, l))) : mul(A(i, l), cj(A(j, l)));
      T& x = c[i + j * ldc];
      if (i == j && !eq(beta, 0.)) x = T(re(x));
      scale_add(x, mul(alpha, s), beta);
    }
}
template <class T> void her2k_(blas::Uplo u, blas::Op op, I n, I k, T alpha, const T* a, I lda, const T* b, I ldb, Rl<T> beta, T* c, I ldc) {
  auto A = view(a, lda, op, n, k); auto B = view(b, ldb, op, n, k); ldok(ldc, n);
  const T al = op == blas::Op::NoTrans ? alpha : alpha, ac = cj(alpha);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < n; ++i) {
      if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
      T s(0), t(0);
      for (I l = 0; l < k; ++l) { s += mul(A(i, l), cj(B(j, l))); t += mul(B(i, l), cj(A(j, l))); }
      T v = mul(al, s) + mul(ac, t);
      T& x = c[i + j * ldc];
      if (i == j) { v = T(re(v)); if (!eq(beta, 0.)) x = T(re(x)); }
      scale_add(x, v, beta);
    }
}
template <class T> void trmm_(blas::Side side, blas::Uplo u, blas::Op op, blas::Diag d, I m, I n, T alpha, const T* a, I lda, T* b, I ldb) {
  ldok(lda, side == blas::Side::Left ? m : n); ldok(ldb, m);
  T* c = tmp<T>(m * n);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < m; ++i) {
      T s(0);
      const bool up = is_up(u, op);
      if (side == blas::Side::Left) for (I l = up ? i : 0; l < (up ? m : i + 1); ++l) s += mul(tri(a, lda, u, op, d, i, l), b[l + j * ldb]);
      else for (I l = up ? 0 : j; l < (up ? j + 1 : n); ++l) s += mul(b[i + l * ldb], tri(a, lda, u, op, d, l, j));
      c[i + j * m] = mul(alpha, s);
    }
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) b[i + j * ldb] = c[i + j * m];
  delete[] c;
}
template <class T> void trsm_(blas::Side side, blas::Uplo u, blas::Op op, blas::Diag d, I m, I n, T alpha, const T* a, I lda, T* b, I ldb) {
  ldok(lda, side == blas::Side::Left ? m : n); ldok(ldb, m);
  const bool up = is_up(u, op);
  if (side == blas::Side::Left) {
    for (I j = 0; j < n; ++j)
      for (I q = 0; q < m; ++q) {
        const I i = up ? m - 1 - q : q;
        T s = eq(alpha, 1.) ? b[i + j * ldb] : mul(alpha, b[i + j * ldb]);
        for (I l = up ? i + 1 : 0; l < (up ? m : i); ++l) s -= mul(tri(a, lda, u, op, d, i, l), b[l + j * ldb]);
        b[i + j * ldb] = d == blas::Diag::Unit ? s : div(s, tri(a, lda, u, op, d, i, i));
      }
  }
  else {
    for (I i = 0; i < m; ++i)
      for (I q = 0; q < n; ++q) {
        const I j = up ? q : n - 1 - q;
        T s = eq(alpha, 1.) ? b[i + j * ldb] : mul(alpha, b[i + j * ldb]);
        for (I l = up ? 0 : j + 1; l < (up ? j : n); ++l) s -= mul(b[i + l * ldb], tri(a, lda, u, op, d, l, j));
        b[i + j * ldb] = d == blas::Diag::Unit ? s : div(s, tri(a, lda, u, op, d, j, j));
      }
  }
}
template <class T> void gemv_(blas::Op op, I m, I n, T alpha, const T* a, I lda, const T* x, I ix, T beta, T* y, I iy) {
  ldok(lda, m);
  const I r = op == blas::Op::NoTrans ? m : n, k = op == blas::Op::NoTrans ? n : m;
  Cz<T> A{a, lda, op};
  if (m == 0 || n == 0) return;
  for (I i = 0; i < r; ++i) {
    T s(0);
    for (I l = 0; l < k; ++l) s += mul(A(i, l), x[l * ix]);
    scale_add(y[i * iy], mul(alpha, s), beta);
  }
}
template <class T> void hemv_(blas::Uplo u, I n, T alpha, const T* a, I lda, const T* x, I ix, T beta, T* y, I iy) {
  ldok(lda, n);
  for (I i = 0; i < n; ++i) {
    T s(0);
    for (I l = 0; l < n; ++l) s += mul(herm(a, lda, u, i, l), x[l * ix]);
    scale_add(y[i * iy], mul(alpha, s), beta);
  }
}
template <class T> void ger_(I m, I n, T alpha, const T* x, I ix, const T* y, I iy, T* a, I lda) {
  ldok(lda, m);
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) a[i + j * lda] += mul(alpha, mul(x[i * ix], cj(y[j * iy])));
}
template <class T> void her2_(blas::Uplo u, I n, T alpha, const T* x, I ix, const T* y, I iy, T* a, I lda) {
  ldok(lda, n);
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < n; ++i) {
      if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
      T v = mul(alpha, mul(x[i * ix], cj(y[j * iy]))) + mul(cj(alpha), mul(y[i * iy], cj(x[j * ix])));
      T& c = a[i + j * lda];
      if (i == j) c = T(re(c) + re(v)); else c += v;
    }
}
template <class T> void trmv_(blas::Uplo u, blas::Op op, blas::Diag d, I n, const T* a, I lda, T* x, I ix) {
  ldok(lda, n);
  T* y = tmp<T>(n);
  const bool up = is_up(u, op);
  for (I i = 0; i < n; ++i) {
    T s(0);
    for (I l = up ? i : 0; l < (up ? n : i + 1); ++l) s += mul(tri(a, lda, u, op, d, i, l), x[l * ix]);
    y[i] = s;
  }
  for (I i = 0; i < n; ++i) x[i * ix] = y[i];
  delete[] y;
}
template <class T> I potrf_(blas::Uplo u, I n, T* a, I ld) {
  req(n >= 0, "LAPACK: size"); ldok(ld, n);
  auto at = [&](I i, I j) -> T& { return u == blas::Uplo::Lower ? a[i + j * ld] : a[j + i * ld]; };  // L(i,j) or conj of U(j,i)
  for (I j = 0; j < n; ++j) {
    Rl<T> d = re(at(j, j));
    for (I l = 0; l < j; ++l) d = d - sq(at(j, l));
    if (!(d > 0)) { at(j, j) = T(d); return j + 1; }
    d = std::sqrt(d);
    at(j, j) = T(d);
    for (I i = j + 1; i < n; ++i) {
      // lower: L(i,j) = (A(i,j) - sum L(i,l) conj(L(j,l))) / d ; upper: U(j,i) = (A(j,i) - sum conj(U(l,j)) U(l,i)) / d
      T s = at(i, j);
      for (I l = 0; l < j; ++l) s -= mul(at(i, l), cj(at(j, l)));
      at(i, j) = div(s, T(d));
    }
  }
  return 0;
}
template <class T> I trtri_(blas::Uplo u, blas::Diag dg, I n, T* a, I ld) {
  ldok(ld, n);
  T* c = tmp<T>(n * n);
  auto lo = u == blas::Uplo::Lower;
  auto A = [&](I i, I j) { return lo ? a[i + j * ld] : a[j + i * ld]; };   // as a lower triangular matrix (of A or A^T)
  for (I j = 0; j < n; ++j)
    for (I i = j; i < n; ++i) {
      T s(i == j ? 1. : 0.);
      for (I l = j; l < i; ++l) s -= mul(A(i, l), c[l + j * n]);
      c[i + j * n] = dg == blas::Diag::Unit ? s : div(s, A(i, i));
    }
  for (I j = 0; j < n; ++j)
    for (I i = j; i < n; ++i)
      if (i != j || dg != blas::Diag::Unit) (lo ? a[i + j * ld] : a[j + i * ld]) = c[i + j * n];
  delete[] c;
  return 0;
}
template <class T> I lauum_(blas::Uplo u, I n, T* a, I ld) {  // U U^H or L^H L
  ldok(ld, n);
  T* c = tmp<T>(n * n);
  const bool lo = u == blas::Uplo::Lower;
  for (I j = 0; j < n; ++j)
    for (I i = 0; i < n; ++i) {
      if (i != j && lo != (i > j)) continue;
      T s(0);
      for (I l = i > j ? i : j; l < n; ++l) s += lo ? mul(cj(a[l + i * ld]), a[l + j * ld]) : mul(a[i + l * ld], cj(a[j + l * ld]));
      c[i + j * n] = i == j ? T(re(s)) : s;
    }
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) if (i == j || lo == (i > j)) a[i + j * ld] = c[i + j * n];
  delete[] c;
  return 0;
}
template <class T> I hegst_(I itype, blas::Uplo u, I n, T* a, I lda, const T* b, I ldb) {
  req(itype == 1, "hegst: itype 1"); ldok(lda, n); ldok(ldb, n);
  T* c = tmp<T>(n * n);
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) c[i + j * n] = herm(a, lda, u, i, j);
  const bool lo = u == blas::Uplo::Lower;
  // lower: inv(L) A inv(L^H) ; upper: inv(U^H) A inv(U)
  trsm_<T>(blas::Side::Left, u, lo ? blas::Op::NoTrans : blas::Op::ConjTrans, blas::Diag::NonUnit, n, n, T(1), b, ldb, c, n > 1 ? n : 1);
  trsm_<T>(blas::Side::Right, u, lo ? blas::Op::ConjTrans : blas::Op::NoTrans, blas::Diag::NonUnit, n, n, T(1), b, ldb, c, n > 1 ? n : 1);
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) if (i == j || lo == (i > j)) a[i + j * lda] = i == j ? T(re(c[i + j * n])) : c[i + j * n];
  delete[] c;
  return 0;
}
template <class T, class In> Rl<T> norm_(lapack::Norm nm, I m, I n, const T* a, I ld, In in) {
  req(nm == lapack::Norm::Max, "max norm");
  ldok(ld, m);
  Rl<T> r = 0;
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) { int k = in(i, j); if (!k) continue; Rl<T> v = k == 2 ? Rl<T>(1) : mod(a[i + j * ld]); r = r < v ? v : r; }
  return r;
}
template <class M, class T> bool part(M u, I i, I j) { return u == M::General || (u == M::Lower ? i >= j : i <= j); }
template <class T> void lacpy_(lapack::MatrixType u, I m, I n, const T* a, I lda, T* b, I ldb) {
  using M = lapack::MatrixType;
  req(m >= 0 && n >= 0, "LAPACK: sizes are not negative");
  if (n > 0 && m > 0) { ldok(lda, m); ldok(ldb, m); }
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) if (part<M, T>(u, i, j)) b[i + j * ldb] = a[i + j * lda];
}
template <class T> void laset_(lapack::MatrixType u, I m, I n, T off, T dg, T* a, I lda) {
  using M = lapack::MatrixType;
  if (n > 0 && m > 0) ldok(lda, m);
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) if (part<M, T>(u, i, j)) a[i + j * lda] = i == j ? dg : off;
}
}
#define FOR(T, R) \
  namespace blas { \
  void gemm(Layout l, Op ta, Op tb, I m, I n, I k, T al, T const* a, I lda, T const* b, I ldb, T be, T* c, I ldc) { col(l); gemm_<T>(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); } \
  void hemm(Layout l, Side s, Uplo u, I m, I n, T al, T const* a, I lda, T const* b, I ldb, T be, T* c, I ldc) { col(l); hemm_<T>(s, u, m, n, al, a, lda, b, ldb, be, c, ldc); } \
  void herk(Layout l, Uplo u, Op o, I n, I k, R al, T const* a, I lda, R be, T* c, I ldc) { col(l); herk_<T>(u, o, n, k, al, a, lda, be, c, ldc); } \
  void her2k(Layout l, Uplo u, Op o, I n, I k, T al, T const* a, I lda, T const* b, I ldb, R be, T* c, I ldc) { col(l); her2k_<T>(u, o, n, k, al, a, lda, b, ldb, be, c, ldc); } \
  void trmm(Layout l, Side s, Uplo u, Op o, Diag d, I m, I n, T al, T const* a, I lda, T* b, I ldb) { col(l); trmm_<T>(s, u, o, d, m, n, al, a, lda, b, ldb); } \
  void trsm(Layout l, Side s, Uplo u, Op o, Diag d, I m, I n, T al, T const* a, I lda, T* b, I ldb) { col(l); trsm_<T>(s, u, o, d, m, n, al, a, lda, b, ldb); } \
  void gemv(Layout l, Op o, I m, I n, T al, T const* a, I lda, T const* x, I ix, T be, T* y, I iy) { col(l); gemv_<T>(o, m, n, al, a, lda, x, ix, be, y, iy); } \
  void hemv(Layout l, Uplo u, I n, T al, T const* a, I lda, T const* x, I ix, T be, T* y, I iy) { col(l); hemv_<T>(u, n, al, a, lda, x, ix, be, y, iy); } \
  void ger(Layout l, I m, I n, T al, T const* x, I ix, T const* y, I iy, T* a, I lda) { col(l); ger_<T>(m, n, al, x, ix, y, iy, a, lda); } \
  void her2(Layout l, Uplo u, I n, T al, T const* x, I ix, T const* y, I iy, T* a, I lda) { col(l); her2_<T>(u, n, al, x, ix, y, iy, a, lda); } \
  void trmv(Layout l, Uplo u, Op o, Diag d, I n, T const* a, I lda, T* x, I ix) { col(l); trmv_<T>(u, o, d, n, a, lda, x, ix); } \
  void copy(I n, T const* x, I ix, T* y, I iy) { for (I i = 0; i < n; ++i) y[i * iy] = x[i * ix]; } \
  void axpy(I n, T al, T const* x, I ix, T* y, I iy) { for (I i = 0; i < n; ++i) y[i * iy] += mul(al, x[i * ix]); } \
  void scal(I n, T al, T* x, I ix) { for (I i = 0; i < n; ++i) x[i * ix] = mul(al, x[i * ix]); } \
  T dot(I n, T const* x, I ix, T const* y, I iy) { T s(0); for (I i = 0; i < n; ++i) s += mul(cj(x[i * ix]), y[i * iy]); return s; } \
  R nrm2(I n, T const* x, I ix) { R s(0); for (I i = 0; i < n; ++i) s += sq(x[i * ix]); return std::sqrt(s); } \
  void rot(I n, T* x, I ix, T* y, I iy, R c, R s) { for (I i = 0; i < n; ++i) { T a = x[i * ix], b = y[i * iy]; x[i * ix] = mul(c, a) + mul(s, b); y[i * iy] = mul(c, b) - mul(s, a); } } \
  } \
  namespace lapack { \
  I potrf(Uplo u, I n, T* a, I ld) { return potrf_<T>(u, n, a, ld); } \
  I trtri(Uplo u, Diag d, I n, T* a, I ld) { return trtri_<T>(u, d, n, a, ld); } \
  I lauum(Uplo u, I n, T* a, I ld) { return lauum_<T>(u, n, a, ld); } \
  void lacpy(MatrixType u, I m, I n, T const* a, I lda, T* b, I ldb) { lacpy_<T>(u, m, n, a, lda, b, ldb); } \
  void laset(MatrixType u, I m, I n, T off, T dg, T* a, I lda) { laset_<T>(u, m, n, off, dg, a, lda); } \
  R lange(Norm nm, I m, I n, T const* a, I ld) { return norm_<T>(nm, m, n, a, ld, [](I, I) { return 1; }); } \
  R lantr(Norm nm, Uplo u, Diag d, I m, I n, T const* a, I ld) { return norm_<T>(nm, m, n, a, ld, [&](I i, I j) { return i == j ? (d == Diag::Unit ? 2 : 1) : (int) (u == Uplo::Lower ? i > j : i < j); }); } \
  }
FOR(double, double)
FOR(Z, double)
namespace lapack {
I sygst(I it, Uplo u, I n, double* a, I lda, double const* b, I ldb) { return hegst_<double>(it, u, n, a, lda, b, ldb); }
I hegst(I it, Uplo u, I n, Z* a, I lda, Z* b, I ldb) { return hegst_<Z>(it, u, n, a, lda, b, ldb); }
}
// bodies of the other element types are never reached: the harnesses use double and complex<double>
