// C05: storage layouts.
#include "mx.h"
#include <dlaf/matrix/check_allocation.h>
#include <cstdlib>
using namespace mx;
using matrix::AllocationLayout;
using matrix::AllocationSpec;
using matrix::ColMajorLayout;
using matrix::Ld;

// column-major layout of arbitrarily many rows: the address of every element is i + j * ld, inside the minimum size
extern "C" void c05_col_major() {
  const int64_t nb = 1 + 2 * vf_pick("tile_rows", 0, vf_param("nb", 1)), B = nb * vf_pick("tiles_per_block", 1, 2), P = vf_pick("grid", 1, vf_param("grid", 2));
  const int64_t src = vf_pick("source", 0, P - 1), rk = vf_pick("rank", 0, P - 1);
  const int64_t cols = vf_pick("columns", 0, vf_param("cols", 3)), cnb = vf_pick("tile_columns", 1, 2);
  vf_shard();
  const int64_t BIG = 1ll << 40;
  // number of rows: digits, so that every number is covered
  const int64_t rows = vf_i64("rounds", 0, BIG) * (B * P) + vf_i64("rest_block", 0, P - 1) * B + vf_i64("rest_tile", 0, B / nb - 1) * nb + vf_i64("rest", 0, nb - 1);
  Distribution d(GlobalElementSize(rows, cols), GlobalElementSize(B, cnb), TileElementSize(nb, cnb), comm::Size2D((int) P, 1), comm::Index2D((int) rk, 0), comm::Index2D((int) src, 0));
  const int64_t ld = vf_i64("ld", 1, BIG * 64);
  const int64_t lr = d.local_size().rows();
  vf_assume(ld >= lr);
  ColMajorLayout l(d, ld);
  vf_cover("layout");
  vf_check(l.size() == d.local_size() && l.nr_tiles() == d.local_nr_tiles() && l.distribution() == d, "local matrix");
  vf_check(l.min_mem_size() == (lr == 0 || cols == 0 ? 0 : lr + ld * (cols - 1)), "minimum size");
  if (lr == 0 || cols == 0) { vf_cover("empty"); return; }
  // one local element
  const int64_t i = vf_i64("local_block", 0, BIG) * B + vf_i64("local_tile_in_block", 0, B / nb - 1) * nb + vf_i64("element_in_tile", 0, nb - 1);
  vf_assume(i < lr);
  const int64_t j = vf_pick("column", 0, cols - 1);
  const LocalTileIndex t(d.local_tile_from_local_element<Coord::Row>(i), d.local_tile_from_local_element<Coord::Col>(j));
  const TileElementIndex e(d.tile_element_from_local_element<Coord::Row>(i), d.tile_element_from_local_element<Coord::Col>(j));
  vf_cover("element");
  vf_check(l.ld_tile(t) == ld, "leading dimension");
  vf_check(l.tile_offset(t) + e.row() + e.col() * ld == i + j * ld, "address of an element");
  const TileElementSize ts = l.tile_size_of(t);
  vf_check(ts == d.tile_size_of(t), "tile size");
  vf_check(l.min_tile_mem_size(t) == ts.rows() + ld * (ts.cols() - 1), "memory of a tile");
  vf_check(l.tile_offset(t) >= 0 && l.tile_offset(t) + l.min_tile_mem_size(t) <= l.min_mem_size(), "tile inside the memory");
}

// every allocation layout of a matrix
extern "C" void c05_matrix() {
  const int64_t rb = vf_pick("tile_rows", 1, 2), cb = 2;
  const int64_t rt = vf_pick("tiles_per_block_rows", 1, 2), ct = 3 - vf_pick("tiles_per_block_cols", 1, 2);
  const int P = (int) vf_pick("grid_rows", 1, 2), rk = (int) vf_pick("rank", 0, P - 1);
  const int layout = (int) vf_pick("layout", 0, 2);
  const int ldk = (int) vf_pick("ld_kind", 0, 3);
  vf_shard();
  const int64_t m = vf_pick("rows", 0, vf_param("n", 4)), n = vf_pick("cols", 0, vf_param("n", 4));
  const AllocationLayout al = layout == 0 ? AllocationLayout::ColMajor : layout == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
  Distribution d(GlobalElementSize(m, n), GlobalElementSize(rb * rt, cb * ct), TileElementSize(rb, cb), comm::Size2D(P, 1), comm::Index2D(rk, 0), comm::Index2D(0, 0));
  const int64_t lr = d.local_size().rows(), lc = d.local_size().cols();
  if (P == 2) vf_assume(n > 2);
  AllocationSpec spec(al);
  const int64_t ld = ldk == 2 ? (lr < 1 ? 1 : lr) + 2 * vf_pick("ld", 0, 1) : 0;
  if (ldk == 0) spec.set_ld(Ld::Compact);
  if (ldk == 1) spec.set_ld(Ld::Padded);
  if (ldk == 2) spec.set_ld(ld);
  Mat<double> mat(d, spec);
  vf_cover("matrix");
  vf_check(mat.allocation_layout() == al && mat.distribution() == d, "attributes");
  vf_check(mat.sub_pipeline().allocation_layout() == al, "layout of a sub-pipeline");
  // every element gets its own value; reading back shows that no two elements share memory (the executor checks that
  // every access is inside the memory of its tile)
  double k = 0;
  each(mat, [&](SizeType, SizeType, double& x) { x = k; k += 1; });
  double q = 0;
  bool same = true;
  each(mat, [&](SizeType, SizeType, double& x) { same = same && x == q; q += 1; });
  vf_check(same && k == (double) (lr * lc), "all elements stored separately");
  if (lr == 0 || lc == 0) { vf_cover("empty matrix"); vf_check(matrix::test::is_allocated_as(mat, al), "layout predicate"); return; }
  vf_cover("elements stored");
  using matrix::test::internal::sync_tile_ptr;
  using matrix::test::internal::sync_tile_ld;
  auto want_ld = [&](int64_t r) { return ldk == 2 ? ld : ldk == 1 || (ldk == 3 && layout == 0) ? (r < 8 ? r : (r + 7) / 8 * 8) : r; };
  const double* p00 = sync_tile_ptr(mat, {0, 0});
  bool ok = true;
  for (SizeType j = 0; j < d.local_nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < d.local_nr_tiles().rows(); ++i) {
      const double* p = sync_tile_ptr(mat, {i, j});
      const int64_t tl = sync_tile_ld(mat, {i, j});
      const TileElementSize ts = d.tile_size_of(LocalTileIndex(i, j));
      vf_check(tt::sync_wait(mat.read(LocalTileIndex(i, j))).get().size() == ts, "tile size");
      if (layout == 0) ok = ok && tl == want_ld(lr) && p == p00 + i * rb + j * cb * tl;
      else if (layout == 1) {
        const int64_t bi = i / rt * rt, bj = j / ct * ct;
        const int64_t br = lr - bi * rb < rb * rt ? lr - bi * rb : rb * rt;
        ok = ok && tl == want_ld(br) && p == sync_tile_ptr(mat, {bi, bj}) + (i - bi) * rb + (j - bj) * cb * tl;
      }
      else ok = ok && tl == want_ld(ts.rows());
    }
  vf_check(ok, "address and leading dimension of every tile");
  vf_check(matrix::test::is_allocated_as(mat, al), "layout predicate");
}

// matrix on the memory of the user
extern "C" void c05_preallocated() {
  const int64_t m = vf_pick("rows", 0, 4), n = vf_pick("cols", 0, 4), rb = vf_pick("tile_rows", 1, 3), cb = vf_pick("tile_cols", 1, 2), ld = vf_pick("ld", 1, 6);
  vf_shard();
  vf_assume(ld >= m);
  const int64_t size = m == 0 || n == 0 ? 0 : m + ld * (n - 1);
  double* p = (double*) malloc(size * sizeof(double) + 1);
  for (int64_t k = 0; k < size; ++k) p[k] = -1.;
  {
    auto mat = matrix::create_matrix_from_col_major<Device::CPU>(GlobalElementSize(m, n), TileElementSize(rb, cb), ld, p);
    vf_cover("memory of the user");
    bool ok = true;
    each(mat, [&](SizeType i, SizeType j, double& x) { ok = ok && &x == p + i + j * ld; x = (double) (1 + i + 10 * j); });
    vf_check(ok, "element (i, j) is at p[i + j * ld]");
    vf_check(matrix::test::is_allocated_as_col_major(mat), "layout predicate");
  }
  bool ok = true;
  for (int64_t k = 0; k < size; ++k) ok = ok && p[k] == (k % ld < m ? (double) (1 + k % ld + 10 * (k / ld)) : -1.);
  vf_check(ok, "the gaps are untouched and the memory survives the matrix");
  free(p);
}

// leading dimensions that are too small are refused
extern "C" void c05_refused() {
  const int64_t m = vf_i64("rows", 0, 12), n = vf_i64("cols", 0, 12), ld = vf_i64("ld", -5, 20);
  Distribution d(GlobalElementSize(m, n), TileElementSize(4, 4), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0), GlobalElementIndex(0, 0));
  vf_allow_abort(1);
  ColMajorLayout l(d, ld);
  vf_cover("accepted");
  vf_check(ld >= 1 && (n == 0 || ld >= m), "accepted leading dimension");
}
// distributions with an offset are refused
extern "C" void c05_offset_refused() {
  const int64_t o = vf_i64("row_offset", 0, 12), c = vf_i64("col_offset", 0, 12);
  Distribution d(GlobalElementSize(5, 5), TileElementSize(13, 13), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0), GlobalElementIndex(o, c));
  vf_allow_abort(1);
  Mat<double> mat(d, AllocationSpec(AllocationLayout::Tiles));
  vf_cover("accepted matrix");
  vf_check(o == 0 && c == 0, "offset supported");
}
