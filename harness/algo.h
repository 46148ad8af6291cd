// Helpers of the harnesses that run whole algorithms, on one process or on a grid of simulated processes.
#pragma once
#include "mx.h"
#include "sim_mpi.h"
#include <blas.hh>
#include <complex>
#include <dlaf/communication/communicator_grid.h>
#include <functional>
namespace mx {
typedef std::complex<double> Z;
inline double mulv(double a, double b) { return a * b; }
inline Z mulv(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline double cj(double a) { return a; }
inline Z cj(Z a) { return Z(a.real(), -a.imag()); }
template <class T> struct SymOf;
template <> struct SymOf<double> { static double any(const char* n) { return vf_real(n, 0); } static double pos(const char* n) { return vf_real(n, 2); } static double nonzero(const char* n) { return vf_real(n, 1); } };
template <> struct SymOf<Z> { static Z any(const char* n) { double r = vf_real(n, 0), i = vf_real(n, 0); return Z(r, i); } static Z pos(const char* n) { return Z(vf_real(n, 2), 0.); } static Z nonzero(const char* n) { return Z(vf_real(n, 1), 0.); } };
inline void same(double a, double b, const char* m) { vf_check_real(a, b, m); }
inline void same(Z a, Z b, const char* m) { vf_check_real(a.real(), b.real(), m); vf_check_real(a.imag(), b.imag(), m); }
template <class T> struct Full {  // a global matrix of the harness
  int64_t m, n;
  T* v;
  Full(int64_t m_, int64_t n_) : m(m_), n(n_), v(new T[(m_ * n_) > 0 ? m_ * n_ : 1]) { for (int64_t i = 0; i < m * n; ++i) v[i] = T(0); }
  Full(const Full& o) : Full(o.m, o.n) { for (int64_t i = 0; i < m * n; ++i) v[i] = o.v[i]; }
  T& operator()(int64_t i, int64_t j) { return v[i + j * m]; }
  const T& operator()(int64_t i, int64_t j) const { return v[i + j * m]; }
  Full& fill(const char* name) { for (int64_t i = 0; i < m * n; ++i) v[i] = SymOf<T>::any(name); return *this; }
};
template <class T> Full<T> mult(const Full<T>& a, const Full<T>& b) {
  Full<T> c(a.m, b.n);
  for (int64_t j = 0; j < b.n; ++j) for (int64_t i = 0; i < a.m; ++i) { T s(0); for (int64_t l = 0; l < a.n; ++l) s += mulv(a(i, l), b(l, j)); c(i, j) = s; }
  return c;
}
template <class T> Full<T> ctrans(const Full<T>& a) { Full<T> c(a.n, a.m); for (int64_t j = 0; j < a.n; ++j) for (int64_t i = 0; i < a.m; ++i) c(j, i) = cj(a(i, j)); return c; }
template <class T> Full<T> trans(const Full<T>& a) { Full<T> c(a.n, a.m); for (int64_t j = 0; j < a.n; ++j) for (int64_t i = 0; i < a.m; ++i) c(j, i) = a(i, j); return c; }
template <class T> Full<T> op_of(blas::Op op, const Full<T>& a) { return op == blas::Op::NoTrans ? a : op == blas::Op::Trans ? trans(a) : ctrans(a); }
// triangular part (unit diagonal if asked), rest zero
template <class T> Full<T> triangle(blas::Uplo u, blas::Diag d, const Full<T>& a) {
  Full<T> c(a.m, a.n);
  for (int64_t j = 0; j < a.n; ++j) for (int64_t i = 0; i < a.m; ++i) c(i, j) = i == j ? (d == blas::Diag::Unit ? T(1) : a(i, j)) : (u == blas::Uplo::Lower) == (i > j) ? a(i, j) : T(0);
  return c;
}
// a symbolic triangular matrix with real positive (or any non-zero) diagonal; the other triangle holds unrelated values
template <class T> Full<T> sym_tri(const char* n, blas::Uplo u, int64_t k, bool junk = true) {
  Full<T> c(k, k);
  for (int64_t j = 0; j < k; ++j) for (int64_t i = 0; i < k; ++i) c(i, j) = i == j ? SymOf<T>::pos(n) : (u == blas::Uplo::Lower) == (i > j) || junk ? SymOf<T>::any(n) : T(0);
  return c;
}
// a symbolic triangular matrix with any invertible diagonal the exact arithmetic can divide by (complex: also imaginary entries)
inline double turn(double x, int64_t) { return x; }
inline Z turn(Z x, int64_t k) { return k % 2 ? Z(0., x.real()) : x; }
template <class T> Full<T> gen_tri(const char* n, blas::Uplo u, int64_t k, bool junk = true) {
  Full<T> c = sym_tri<T>(n, u, k, junk);
  for (int64_t i = 0; i < k; ++i) c(i, i) = turn(SymOf<T>::nonzero(n), i);
  return c;
}
inline bool in_part(blas::Uplo u, int64_t i, int64_t j) { return u == blas::Uplo::General || i == j || (u == blas::Uplo::Lower) == (i > j); }
// the Hermitian matrix described by one triangle
template <class T> Full<T> hermitian(blas::Uplo u, const Full<T>& a) {
  Full<T> c(a.m, a.n);
  for (int64_t j = 0; j < a.n; ++j) for (int64_t i = 0; i < a.m; ++i) c(i, j) = i == j ? T(std::real(a(i, i))) : in_part(u, i, j) ? a(i, j) : cj(a(j, i));
  return c;
}
template <class T> void put(Mat<T>& m, const Full<T>& f, int64_t oi = 0, int64_t oj = 0) { each(m, [&](int64_t i, int64_t j, T& x) { x = f(i + oi, j + oj); }); }
template <class T> void expect(Mat<T>& m, const Full<T>& f, const char* msg) { each(m, [&](int64_t i, int64_t j, T& x) { same(x, f(i, j), msg); }); }
template <class T> void expect_part(Mat<T>& m, blas::Uplo u, const Full<T>& in, const Full<T>& out, const char* msg, const char* omsg) {
  each(m, [&](int64_t i, int64_t j, T& x) { if (in_part(u, i, j)) same(x, in(i, j), msg); else same(x, out(i, j), omsg); });
}
struct Setup {  // P == 0: local
  int P = 0, Q = 0, sr = 0, sc = 0;
  bool dist() const { return P > 0; }
  Distribution dis(int64_t m, int64_t n, int64_t mb, int64_t nb, comm::Index2D rank) const {
    return Distribution(GlobalElementSize(m, n), TileElementSize(mb, nb), comm::Size2D(P ? P : 1, Q ? Q : 1), rank, comm::Index2D(sr, sc));
  }
};
// grids: 0 local, 1: 1x1, 2: 2x1, 3: 1x2, 4: 2x2, 5: 3x1, 6: 1x3, 7: 3x2, 8: 2x3
inline Setup pick_setup(int64_t lo, int64_t hi, bool src = true) {
  static const int P[] = {0, 1, 2, 1, 2, 3, 1, 3, 2}, Q[] = {0, 1, 1, 2, 2, 1, 3, 2, 3};
  Setup s;
  const int k = (int) vf_pick("grid (0 local, 1x1, 2x1, 1x2, 2x2, 3x1, 1x3, 3x2, 2x3)", lo, hi);
  s.P = P[k];
  s.Q = Q[k];
  if (src && s.P * s.Q > 1) {
    s.sr = (int) vf_pick("source row", 0, s.P - 1);
    s.sc = (int) vf_pick("source col", 0, s.Q - 1);
  }
  return s;
}
// f(grid or nullptr, rank)
typedef std::function<void(comm::CommunicatorGrid*, comm::Index2D)> Body;
namespace detail {
struct Run { const Setup* s; const Body* f; };
inline void rank_main(int, void* a) {
  Run& r = *(Run*) a;
  comm::CommunicatorGrid g(comm::Communicator(MPI_COMM_WORLD), r.s->P, r.s->Q, common::Ordering::ColumnMajor, (std::size_t) vf_param("pipelines", 1));
  (*r.f)(&g, g.rank());
  g.wait_all_communicators();
}
}
inline void run(const Setup& s, const Body& f) {
  if (!s.dist()) { f(nullptr, comm::Index2D(0, 0)); pika::wait(); return; }
  sim_world(s.P * s.Q);
  detail::Run r{&s, &f};
  mini::run_ranks(s.P * s.Q, detail::rank_main, &r);
  vf_check(sim_pending() == 0, "every communication is matched");
  vf_check(sim_live_comms() == 0 && sim_live_types() == 0, "communicators and datatypes are released");
}
}
