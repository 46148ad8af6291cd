// C16: matrix copies, sub-matrix references and retiled matrices.
#include "algo.h"
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_ref.h>
using namespace mx;
using matrix::internal::MatrixRef;
template <class T> using CMat = matrix::Matrix<const T, Device::CPU>;
// redistribution between two distributions of the same grid
template <class T> static void redist(const Setup& s, const Setup& d, int64_t m, int64_t n, TileElementSize ts, TileElementSize td, int alloc) {
  Full<T> in(m, n), junk(m, n);
  in.fill("in");
  junk.fill("out");
  const matrix::AllocationLayout L[] = {matrix::AllocationLayout::ColMajor, matrix::AllocationLayout::Blocks, matrix::AllocationLayout::Tiles};
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    Mat<T> a(s.dis(m, n, ts.rows(), ts.cols(), rank), matrix::AllocationSpec(L[alloc])), b(d.dis(m, n, td.rows(), td.cols(), rank), matrix::AllocationSpec(L[(alloc + 1) % 3]));
    put(a, in);
    put(b, junk);
    matrix::copy(static_cast<CMat<T>&>(a), b, *g);
    expect(a, in, "the source is not modified");
    expect(b, in, "every element of the destination is that of the source");
  });
  if (m * n > 0) vf_cover("redistributed");
}
extern "C" void c16_redist() {
  const bool cplx = vf_pick("complex", 0, 1);
  Setup s = pick_setup(1, vf_param("grids", 4)), d = s;
  if (s.P * s.Q > 1) {
    d.sr = (int) vf_pick("destination source row", 0, s.P - 1);
    d.sc = (int) vf_pick("destination source col", 0, s.Q - 1);
  }
  static const int64_t t[][6] = {{4, 2, 1, 1, 1, 1}, {4, 3, 2, 1, 1, 2}, {3, 5, 1, 4, 2, 2}, {5, 3, 4, 1, 2, 3}, {0, 2, 1, 1, 1, 1}, {6, 4, 1, 1, 1, 1}, {6, 3, 1, 2, 3, 1}};
  const int64_t k = vf_pick("size case", 0, vf_param("sizes", 3));
  static const int pol[] = {0, 3, 1};
  mini::policy = pol[vf_pick("scheduler", 0, vf_param("schedulers", 1))];
  vf_shard();
  const TileElementSize ts(t[k][2], t[k][3]), td(t[k][4], t[k][5]);
  if (cplx) redist<Z>(s, d, t[k][0], t[k][1], ts, td, (int) k % 3); else redist<double>(s, d, t[k][0], t[k][1], ts, td, (int) k % 3);
}
// whole-matrix and tile-range copies between matrices of one distribution (any rank; no communication takes place)
static void same_dist() {
  Setup s = pick_setup(1, vf_param("grids", 4));
  const comm::Index2D rank(s.P > 1 ? (int) vf_pick("rank row", 0, s.P - 1) : 0, s.Q > 1 ? (int) vf_pick("rank col", 0, s.Q - 1) : 0);
  const int64_t m = vf_pick("rows", 0, 4), n = vf_pick("cols", 1, 3), mb = vf_pick("tile rows", 1, 2), kind = vf_pick("kind", 0, 3);
  vf_shard();
  Mat<double> a(s.dis(m, n, mb, 2, rank)), b(s.dis(m, n, mb, 2, rank));
  Full<double> in(m, n), junk(m, n);
  in.fill("in");
  junk.fill("out");
  put(a, in);
  put(b, junk);
  const auto& d = a.distribution();
  const LocalTileSize nt = d.local_nr_tiles();
  if (kind == 0) {
    matrix::copy(static_cast<CMat<double>&>(a), b);
    expect(b, in, "every element of the destination is that of the source");
  }
  else if (kind == 3) {  // between references to the whole matrices
    MatrixRef<const double, Device::CPU> ra(a);
    MatrixRef<double, Device::CPU> rb(b);
    matrix::internal::copy(ra, rb);
    expect(b, in, "every element of the destination is that of the source");
  }
  else if (!nt.isEmpty()) {
    const int64_t si = vf_pick("source tile", 0, nt.rows() - 1), di = kind == 1 ? si : vf_pick("destination tile", 0, nt.rows() - 1);
    const int64_t cnt = vf_pick("tile rows copied", 1, nt.rows() - (si > di ? si : di));
    // the copied ranges must have the same size in elements
    const auto len = [&](int64_t i) { int64_t l = 0; for (int64_t q = i; q < i + cnt; ++q) l += d.local_tile_size_of<Coord::Row>(q); return l; };
    vf_assume(len(si) == len(di));
    if (kind == 1) matrix::copy(LocalTileIndex(si, 0), LocalTileSize(cnt, nt.cols()), static_cast<CMat<double>&>(a), b);
    else matrix::copy(LocalTileSize(cnt, nt.cols()), LocalTileIndex(si, 0), static_cast<CMat<double>&>(a), LocalTileIndex(di, 0), b);
    each(b, [&](int64_t i, int64_t j, double& v) {
      const int64_t lt = d.local_tile_from_global_element<Coord::Row>(i);
      if (lt < di || lt >= di + cnt) { same(v, junk(i, j), "tiles outside the range are not modified"); return; }
      const int64_t gs = d.global_tile_from_local_tile<Coord::Row>(lt - di + si) * mb + d.tile_element_from_global_element<Coord::Row>(i);
      same(v, in(gs, j), "the copied tiles are those of the source range");
    });
  }
  expect(a, in, "the source is not modified");
  pika::wait();
  if (m * n > 0) vf_cover("same distribution");
}
extern "C" void c16_same() { same_dist(); }
// windows: element (i, j) of a reference at o is element o + (i, j) of the matrix; copies between windows
extern "C" void c16_ref() {
  Setup s = pick_setup(1, vf_param("grids", 4));
  const comm::Index2D rank(s.P > 1 ? (int) vf_pick("rank row", 0, s.P - 1) : 0, s.Q > 1 ? (int) vf_pick("rank col", 0, s.Q - 1) : 0);
  const int64_t m = 5, n = 3, mb = vf_pick("tile rows", 1, 3), nb = vf_pick("tile cols", 1, 2);
  const int64_t oi = vf_pick("origin row", 0, m), oj = vf_pick("origin col", 0, 2), wm = vf_pick("window rows", 0, m - oi), wn = vf_pick("window cols", 0, n - oj);
  vf_shard();
  Mat<double> a(s.dis(m, n, mb, nb, rank));
  Full<double> in(m, n), nw(m, n);
  in.fill("in");
  nw.fill("new");
  put(a, in);
  bool seen[5][3] = {};
  {
    MatrixRef<double, Device::CPU> r(a, {GlobalElementIndex(oi, oj), GlobalElementSize(wm, wn)});
    const auto& d = r.distribution();
    for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
      for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
        const GlobalTileIndex gt = d.global_tile_index(LocalTileIndex(i, j));
        {
          auto t = tt::sync_wait(static_cast<MatrixRef<const double, Device::CPU>&>(r).read(LocalTileIndex(i, j)));
          vf_check(t.get().size() == d.tile_size_of(gt), "a tile of a reference has the size its distribution reports");
          for (SizeType y = 0; y < t.get().size().cols(); ++y)
            for (SizeType x = 0; x < t.get().size().rows(); ++x) {
              const GlobalElementIndex e = d.global_element_index(gt, TileElementIndex(x, y));
              same(t.get()({x, y}), in(oi + e.row(), oj + e.col()), "an element of a reference is the element of the matrix at origin + index");
            }
        }
        auto t = tt::sync_wait(r.readwrite(LocalTileIndex(i, j)));
        for (SizeType y = 0; y < t.size().cols(); ++y)
          for (SizeType x = 0; x < t.size().rows(); ++x) {
            const GlobalElementIndex e = d.global_element_index(gt, TileElementIndex(x, y));
            t({x, y}) = nw(oi + e.row(), oj + e.col());
            seen[oi + e.row()][oj + e.col()] = true;
          }
      }
  }
  each(a, [&](int64_t i, int64_t j, double& v) {
    const bool inside = i >= oi && i < oi + wm && j >= oj && j < oj + wn;
    vf_check(inside == seen[i][j], "a reference covers exactly the elements of its window");
    same(v, inside ? nw(i, j) : in(i, j), "writing through a reference changes exactly the elements of its window");
  });
  pika::wait();
  vf_cover("window");
}
// retiled matrices and sub-pipelines
extern "C" void c16_retile() {
  Setup s = pick_setup(1, vf_param("grids", 4));
  const comm::Index2D rank(s.P > 1 ? (int) vf_pick("rank row", 0, s.P - 1) : 0, s.Q > 1 ? (int) vf_pick("rank col", 0, s.Q - 1) : 0);
  const int64_t m = vf_pick("rows", 1, vf_param("m", 6)), n = vf_pick("cols", 1, 3), f = vf_pick("row factor", 1, 3), h = vf_pick("col factor", 1, 2), tm = vf_pick("new tile rows", 1, 2);
  const bool viaref = vf_pick("through a reference", 0, 1), ro = vf_pick("read-only", 0, 1);
  mini::policy = (int) vf_pick("scheduler", 0, 1);
  vf_shard();
  Mat<double> a(s.dis(m, n, f * tm, h, rank));
  Full<double> in(m, n), nw(m, n), last(m, n);
  in.fill("in");
  nw.fill("new");
  put(a, in);
  const LocalTileSize tpb(f, h);
  auto check_ro = [&](CMat<double>& r) {
    const auto& d = r.distribution();
    vf_check(d.tile_size() == TileElementSize(tm, 1), "the tiles of a retiled matrix are the requested fraction of the block");
    for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
      for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
        auto t = tt::sync_wait(r.read(LocalTileIndex(i, j)));
        const GlobalTileIndex gt = d.global_tile_index(LocalTileIndex(i, j));
        vf_check(t.get().size() == d.tile_size_of(gt), "a tile of a retiled matrix has the size its distribution reports");
        for (SizeType y = 0; y < t.get().size().cols(); ++y)
          for (SizeType x = 0; x < t.get().size().rows(); ++x) {
            const GlobalElementIndex e = d.global_element_index(gt, TileElementIndex(x, y));
            same(t.get()({x, y}), in(e.row(), e.col()), "an element of a retiled matrix is that of the matrix");
          }
      }
  };
  auto write = [&](Mat<double>& r) {
    check_ro(r);
    int64_t cnt = 0;
    each(r, [&](int64_t i, int64_t j, double& v) { v = nw(i, j); ++cnt; });
    vf_check(cnt == a.distribution().local_size().rows() * a.distribution().local_size().cols(), "a retiled matrix covers every local element once");
  };
  if (viaref) {
    MatrixRef<double, Device::CPU> r(a);
    if (ro) { auto q = r.retiled_sub_pipeline_const(tpb); check_ro(q); }
    else { auto q = r.retiled_sub_pipeline(tpb); write(q); }
  }
  else {
    if (ro) { auto q = a.retiled_sub_pipeline_const(tpb); check_ro(q); }
    else { auto q = a.retiled_sub_pipeline(tpb); write(q); }
  }
  // an access to the original requested afterwards sees what was written through the retiled matrix
  expect(a, ro ? in : nw, "later accesses of the original see the changes made through the retiled matrix");
  pika::wait();
  vf_cover("retiled");
}
