// C15: tiles, subtiles and memory views stay inside their parent.
#include "mx.h"
using namespace mx;
using matrix::SubTileSpec;
using matrix::Tile;
using memory::MemoryView;
using MV = MemoryView<double, Device::CPU>;
using MVC = MemoryView<const double, Device::CPU>;
using TL = Tile<double, Device::CPU>;
static const int64_t BIG = 1ll << 40;
static int64_t addr(const double* p, const double* base) { return ((int64_t) p - (int64_t) base); }

// ---- memory views: a view of a view of memory of any size
template <class V> static void check_view(const V& v, const double* base, int64_t off, int64_t size, const char* m) {
  vf_check(v.size() == size, m);
  if (size == 0) { vf_check(v() == nullptr, "an empty view has no address"); return; }
  vf_check(addr(v(), base) == off * 8, "first element of a view");
  const int64_t k = vf_i64("element", 0, BIG);
  vf_assume(k < size);
  vf_check(addr(v(k), base) == (off + k) * 8, "element of a view");
}
extern "C" void c15_view() {
  const int64_t form = vf_pick("form", 0, 6);
  vf_shard();
  double* p = (double*) vf_virtual(1ll << 50);
  const int64_t n = vf_i64("size", 0, BIG);
  const int64_t o1 = vf_i64("offset", 0, BIG), s1 = vf_i64("sub size", 0, BIG), o2 = vf_i64("offset 2", 0, BIG), s2 = vf_i64("sub size 2", 0, BIG);
  MV a(p, n);
  check_view(a, p, 0, n, "size of a view of a memory");
  vf_allow_abort(1);
  if (form == 0) {
    MV b(a, o1, s1);
    vf_check(o1 + s1 <= n, "a view past the end of its parent is refused");
    vf_cover("view of a view");
    check_view(b, p, o1, s1, "size of a view of a view");
    MV c(b, o2, s2);
    vf_check(o2 + s2 <= s1, "a view past the end of its parent view is refused");
    vf_cover("view of a view of a view");
    check_view(c, p, o1 + o2, s2, "size of a view of a view of a view");
    check_view(b, p, o1, s1, "making a view leaves its parent as it was");
    return;
  }
  vf_assume(o1 + s1 <= n);
  vf_allow_abort(0);
  MV b(a, o1, s1);
  if (form == 1) { MVC c(b); vf_cover("converted"); check_view(c, p, o1, s1, "size of a view of constant data"); check_view(b, p, o1, s1, "a copy leaves the source"); }
  if (form == 2) { MVC c(std::move(b)); check_view(c, p, o1, s1, "size of a moved view"); check_view(b, p, 0, 0, "a moved-from view is empty"); }
  if (form == 3) { MV c(std::move(b)); vf_cover("moved"); check_view(c, p, o1, s1, "size of a moved view"); check_view(b, p, 0, 0, "a moved-from view is empty"); }
  if (form == 4) { MVC c(a); c = b; check_view(c, p, o1, s1, "size of an assigned view"); MV d(a); d = b; check_view(d, p, o1, s1, "size of an assigned view"); check_view(b, p, o1, s1, "a copy leaves the source"); }
  if (form == 5) { MVC c(a); c = std::move(b); check_view(c, p, o1, s1, "size of an assigned view"); check_view(b, p, 0, 0, "a moved-from view is empty"); }
  if (form == 6) { MV c(a); c = std::move(b); check_view(c, p, o1, s1, "size of an assigned view"); check_view(b, p, 0, 0, "a moved-from view is empty");
    vf_allow_abort(1);
    MVC d(a, o2, s2);
    vf_check(o2 + s2 <= n, "a view of constant data past the end of its parent is refused");
    check_view(d, p, o2, s2, "size of a view of constant data");
  }
}

// ---- tiles and subtiles of any size; one of leading dimension and number of columns is from a table (their product is linear)
struct Shape { int64_t rows, cols, ld; bool table_ld; };
static const int64_t lds[] = {1, 2, 3, 5, 8, 64, 1000, 1ll << 20, 17, 4096, 123457};
static Shape pick_shape() {
  Shape s;
  s.table_ld = vf_pick("leading dimension from the table", 0, 1);
  if (s.table_ld) { s.ld = lds[vf_pick("ld", 0, vf_param("nld", 8) - 1)]; vf_shard(); s.rows = vf_i64("rows", 0, BIG); s.cols = vf_i64("cols", 0, 1 << 18); }
  else { s.cols = vf_pick("cols", 0, vf_param("cols", 4)); vf_shard(); s.rows = vf_i64("rows", 0, BIG); s.ld = vf_i64("any ld", 1, BIG); }
  vf_assume(s.ld >= s.rows);
  return s;
}
// product with the symbolic factor on the right side
static int64_t mul_ld(const Shape& s, int64_t col) {
  if (s.table_ld) return s.ld * col;
  int64_t r = 0;
  for (int64_t k = 0; k < s.cols; ++k) r += col > k ? s.ld : 0;
  return r;
}
static int64_t col_index(const Shape& s, const char* n, int64_t hi) { return s.table_ld ? vf_i64(n, 0, 1 << 18) : vf_pick(n, 0, hi); }
static const double* ptr_of(const TL& t, const TileElementIndex& i) { return t.ptr(i); }
template <class T> static void check_tile(const T& t, const Shape& s, const double* base, int64_t orow, int64_t ocol, int64_t rows, int64_t cols) {
  vf_check(t.size() == TileElementSize(rows, cols), "size of a subtile");
  vf_check(t.ld() == s.ld, "leading dimension of a subtile");
  vf_check(t.is_contiguous() == (s.ld == rows), "contiguous");
  if (rows == 0 || cols == 0) { vf_cover("empty subtile"); return; }
  vf_cover("subtile");
  const int64_t i = vf_i64("element row", 0, BIG), j = col_index(s, "element col", s.cols - 1);
  vf_assume(i < rows && j < cols);
  const int64_t a = addr(t.ptr({i, j}), base);
  vf_check(a == (orow + i + mul_ld(s, ocol + j)) * 8, "element (i, j) of a subtile is element origin + (i, j) of the tile");
  vf_check(addr(t.ptr(), base) == (orow + mul_ld(s, ocol)) * 8, "first element of a subtile");
  vf_check(a >= 0 && a < (s.rows + mul_ld(s, s.cols - 1)) * 8, "no address outside the parent");
}
extern "C" void c15_subtile() {
  const Shape s = pick_shape();
  double* p = (double*) vf_virtual(1ll << 60);
  const int64_t need = s.rows == 0 || s.cols == 0 ? 0 : s.rows + mul_ld(s, s.cols - 1);
  const int64_t extra = vf_i64("memory after the tile", 0, 8);
  TL t(TileElementSize(s.rows, s.cols), MV(p, need + extra), s.ld);
  check_tile(t, s, p, 0, 0, s.rows, s.cols);
  // a window of the tile, also one that does not fit
  const int64_t orow = vf_i64("origin row", -2, BIG), ocol = s.table_ld ? vf_i64("origin col", -2, 1 << 18) : vf_pick("origin col", -1, s.cols + 1);
  const int64_t rows = vf_i64("sub rows", -2, BIG), cols = s.table_ld ? vf_i64("sub cols", -2, 1 << 18) : vf_pick("sub cols", -1, s.cols + 1);
  vf_allow_abort(1);
  const TL u = t.subTileReference(SubTileSpec{{orow, ocol}, {rows, cols}});
  vf_check(orow >= 0 && ocol >= 0 && rows >= 0 && cols >= 0 && orow + rows <= s.rows && ocol + cols <= s.cols, "a window outside the tile is refused");
  vf_allow_abort(0);
  vf_cover("window");
  check_tile(u, s, p, orow, ocol, rows, cols);
  // a window of the window
  const int64_t orow2 = vf_i64("origin row 2", 0, BIG), ocol2 = col_index(s, "origin col 2", s.cols), rows2 = vf_i64("sub rows 2", 0, BIG), cols2 = col_index(s, "sub cols 2", s.cols);
  vf_assume(orow2 + rows2 <= rows && ocol2 + cols2 <= cols);
  const Tile<const double, Device::CPU>& cu = u;
  auto v = cu.subTileReference(SubTileSpec{{orow2, ocol2}, {rows2, cols2}});
  check_tile(v, s, p, orow + orow2, ocol + ocol2, rows2, cols2);
  auto w = std::move(v);
  check_tile(w, s, p, orow + orow2, ocol + ocol2, rows2, cols2);
  vf_check(v.size() == TileElementSize(0, 0), "a moved-from tile is empty");
}
// every window inside the tile is accepted (an abort here is a violation)
extern "C" void c15_accepted() {
  const Shape s = pick_shape();
  double* p = (double*) vf_virtual(1ll << 60);
  const int64_t need = s.rows == 0 || s.cols == 0 ? 0 : s.rows + mul_ld(s, s.cols - 1);
  TL t(TileElementSize(s.rows, s.cols), MV(p, need), s.ld);
  const int64_t orow = vf_i64("origin row", 0, BIG), ocol = col_index(s, "origin col", s.cols), rows = vf_i64("sub rows", 0, BIG), cols = col_index(s, "sub cols", s.cols);
  vf_assume(orow + rows <= s.rows && ocol + cols <= s.cols);
  const TL u = t.subTileReference(SubTileSpec{{orow, ocol}, {rows, cols}});
  vf_cover("accepted");
  check_tile(u, s, p, orow, ocol, rows, cols);
}
// memory that is too small, or a leading dimension that is too small, is refused
extern "C" void c15_refused() {
  Shape s;
  s.table_ld = true;
  s.ld = lds[vf_pick("ld", 0, 3)] - vf_pick("less", 0, 2);
  vf_shard();
  s.rows = vf_i64("rows", -2, BIG);
  s.cols = vf_i64("cols", -2, 1 << 18);
  const int64_t mem = vf_i64("memory", 0, BIG);
  double* p = (double*) vf_virtual(1ll << 60);
  vf_allow_abort(1);
  TL t(TileElementSize(s.rows, s.cols), MV(p, mem), s.ld);
  vf_check(s.rows >= 0 && s.cols >= 0 && s.ld >= 1 && s.ld >= s.rows, "an invalid size or leading dimension is refused");
  vf_check(s.rows == 0 || s.cols == 0 || s.rows + s.ld * (s.cols - 1) <= mem, "a tile does not reach past its memory");
  vf_cover("tile");
}
// ---- two windows overlap exactly if they share an element
extern "C" void c15_overlap() {
  int64_t v[2][4];
  static const char* nm[2][4] = {{"row", "col", "rows", "cols"}, {"row 2", "col 2", "rows 2", "cols 2"}};
  for (int k = 0; k < 2; ++k) for (int q = 0; q < 4; ++q) v[k][q] = vf_i64(nm[k][q], 0, BIG);
  const bool o = matrix::internal::subTileSpecsOverlap(SubTileSpec{{v[0][0], v[0][1]}, {v[0][2], v[0][3]}}, SubTileSpec{{v[1][0], v[1][1]}, {v[1][2], v[1][3]}});
  auto in = [&](int k, int64_t i, int64_t j) { return i >= v[k][0] && i < v[k][0] + v[k][2] && j >= v[k][1] && j < v[k][1] + v[k][3]; };
  if (o) {
    vf_cover("overlap");
    const int64_t i = v[0][0] > v[1][0] ? v[0][0] : v[1][0], j = v[0][1] > v[1][1] ? v[0][1] : v[1][1];
    vf_check(in(0, i, j) && in(1, i, j), "windows said to overlap share an element");
  }
  else {
    vf_cover("no overlap");
    const int64_t i = vf_i64("i", 0, 2 * BIG), j = vf_i64("j", 0, 2 * BIG);
    vf_check(!(in(0, i, j) && in(1, i, j)), "windows said not to overlap share no element");
  }
}
// ---- asynchronous subtiles of a tile of a matrix: the right window, and the tile is not given on before all are released
extern "C" void c15_split() {
  static const int pol[] = {0, 1};
  mini::policy = pol[vf_pick("scheduler", 0, 1)];
  const int64_t m = vf_pick("m", 1, vf_param("m", 3)), n = vf_pick("n", 1, 2), form = vf_pick("form", 0, 3);
  auto win = [&](const char* q) {
    (void) q;
    const int64_t i = vf_pick("row", 0, m), j = vf_pick("col", 0, n), r = vf_pick("rows", 0, m - i), c = vf_pick("cols", 0, n - j);
    return SubTileSpec{{i, j}, {r, c}};
  };
  std::vector<SubTileSpec> specs;
  const int64_t cnt = form < 2 ? 1 : vf_param("specs", 2);
  for (int64_t k = 0; k < cnt; ++k) specs.push_back(win("spec"));
  vf_shard();
  Mat<double> a(LocalElementSize(m, n), TileElementSize(m, n));
  double x[16];
  for (int64_t k = 0; k < 16; ++k) x[k] = vf_real("x", 0);
  auto at = [&](int64_t i, int64_t j) -> double& { return x[i + 4 * j]; };
  each(a, [&](int64_t i, int64_t j, double& e) { e = at(i, j); });
  auto read_ok = [&](const Tile<const double, Device::CPU>& t, const SubTileSpec& s) {
    vf_check(t.size() == s.size && t.ld() >= 1, "size of an asynchronous subtile");
    for (SizeType j = 0; j < s.size.cols(); ++j) for (SizeType i = 0; i < s.size.rows(); ++i) vf_check_real(t({i, j}), at(s.origin.row() + i, s.origin.col() + j), "window of an asynchronous subtile");
  };
  auto write = [&](TL& t, const SubTileSpec& s, int64_t k) {
    vf_check(t.size() == s.size, "size of an asynchronous subtile");
    for (SizeType j = 0; j < s.size.cols(); ++j) for (SizeType i = 0; i < s.size.rows(); ++i) { double v = 100. * (k + 1) + i + 10 * j; t({i, j}) = v; at(s.origin.row() + i, s.origin.col() + j) = v; }
  };
  namespace ex = pika::execution::experimental;
  bool later = false;
  if (form == 0) {  // read-only window
    auto s = matrix::splitTile(a.read(LocalTileIndex(0, 0)), specs[0]);
    ex::start_detached(a.readwrite(LocalTileIndex(0, 0)) | ex::then([&](TL) { later = true; }));
    { auto t = tt::sync_wait(s); read_ok(t.get(), specs[0]); s = {}; mini::wait_idle(); vf_check(!later, "the next access waits for the subtile"); }
    vf_cover("read-only subtile");
  }
  else if (form == 1) {  // read-write window
    auto s = matrix::splitTile(a.readwrite(LocalTileIndex(0, 0)), specs[0]);
    ex::start_detached(a.readwrite(LocalTileIndex(0, 0)) | ex::then([&](TL) { later = true; }));
    { auto t = tt::sync_wait(std::move(s)); write(t, specs[0], 0); mini::wait_idle(); vf_check(!later, "the next access waits for the subtile"); }
    vf_cover("read-write subtile");
  }
  else if (form == 2) {  // several read-only windows
    auto v = matrix::splitTile(a.read(LocalTileIndex(0, 0)), specs);
    ex::start_detached(a.readwrite(LocalTileIndex(0, 0)) | ex::then([&](TL) { later = true; }));
    vf_check(v.size() == specs.size(), "one subtile for each window");
    for (size_t k = 0; k < v.size(); ++k) { auto t = tt::sync_wait(v[k]); read_ok(t.get(), specs[k]); v[k] = {}; mini::wait_idle(); vf_check(!later, "the next access waits for all the subtiles"); }
    vf_cover("read-only subtiles");
  }
  else {  // disjoint read-write windows
    bool lap = false;
    for (size_t k = 0; k < specs.size(); ++k) for (size_t q = 0; q < k; ++q) {
      bool hit = false;
      for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) { const TileElementIndex e(i, j);
        auto in = [&](const SubTileSpec& s) { return i >= s.origin.row() && j >= s.origin.col() && i < s.origin.row() + s.size.rows() && j < s.origin.col() + s.size.cols(); };
        hit = hit || (in(specs[k]) && in(specs[q])); }
      lap = lap || hit;
    }
    vf_assume(!lap);
    auto v = matrix::splitTileDisjoint(a.readwrite(LocalTileIndex(0, 0)), specs);
    ex::start_detached(a.readwrite(LocalTileIndex(0, 0)) | ex::then([&](TL) { later = true; }));
    vf_check(v.size() == specs.size(), "one subtile for each window");
    const bool rev = vf_pick("released in reverse", 0, 1);
    std::vector<TL> held;
    for (size_t k = 0; k < v.size(); ++k) held.push_back(tt::sync_wait(std::move(v[k])));
    v.clear();
    for (size_t k = 0; k < held.size(); ++k) write(held[k], specs[k], (int64_t) k);
    while (!held.empty()) {
      mini::wait_idle();
      vf_check(!later, "the next access waits for all the subtiles");
      if (rev) held.pop_back(); else held.erase(held.begin());
    }
    vf_cover("disjoint subtiles");
  }
  mini::wait_idle();
  vf_check(later, "the next access is granted once the subtiles are released");
  each(a, [&](int64_t i, int64_t j, double& e) { vf_check_real(e, at(i, j), "an element outside the windows is untouched, the others have the value written"); });
}
