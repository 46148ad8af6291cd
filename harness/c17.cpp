// C17: workspace panels and panel broadcasts.
#include "algo.h"
#include <dlaf/matrix/panel.h>
#include <dlaf/communication/broadcast_panel.h>
using namespace mx;
using matrix::Panel;
using matrix::StoreTransposed;
template <Coord A, StoreTransposed S> using P_ = Panel<A, double, Device::CPU, S>;
template <Coord A, class P> static void set_dim(P& p, int64_t w) { if constexpr (A == Coord::Col) p.setWidth(w); else p.setHeight(w); }
template <Coord A, class P> static int64_t get_dim(P& p) { if constexpr (A == Coord::Col) return p.getWidth(); else return p.getHeight(); }
template <StoreTransposed S> static bool tr() { return S == StoreTransposed::Yes; }
// the range a panel should have now (elements along its coordinate)
struct Want { int64_t start, end, off, dim; };  // tiles [start, end), offset in the first tile, width (-1: the tile size)
// one use of the panel: every tile of the range is there, has the right size, and keeps what is written
template <Coord A, StoreTransposed S> static void use(P_<A, S>& p, const Distribution& d, const Want& w, Mat<double>& ext, bool external) {
  constexpr Coord C = orthogonal(A);
  vf_check(p.rangeStart() == w.start && p.rangeEnd() == w.end, "the range of the panel");
  const int64_t tsz = d.tile_size().get<A>(), dim = w.dim < 0 ? tsz : w.dim;
  vf_check(get_dim<A>(p) == dim, "the width of the panel");
  vf_check(p.offsetElement() == w.start * d.tile_size().get<C>() + w.off, "the first element of the panel");
  int64_t nt = 0, want = 0;
  for (int64_t t = w.start; t < w.end; ++t) if (d.rank_global_tile<C>(t) == d.rank_index().get<C>()) ++want;
  Full<double> v(64, 64);
  SizeType prev = -1;
  for (const auto& ij : p.iteratorLocal()) {
    const SizeType lt = ij.template get<C>(), gt = d.global_tile_from_local_tile<C>(lt);
    vf_check(gt >= w.start && gt < w.end && lt > prev, "the panel iterates over the tiles of its range, in order");
    prev = lt;
    ++nt;
    if (external && gt == w.start) { p.setTile(ij, ext.read(LocalTileIndex(0, 0))); continue; }
    auto t = tt::sync_wait(p.readwrite(ij));
    const int64_t len = d.global_tile_size_of<C>(gt) - (gt == w.start ? w.off : 0);
    const TileElementSize sz = tr<S>() ? TileElementSize(C, dim, len) : TileElementSize(A, dim, len);
    vf_check(t.size() == sz, "a panel tile has the size of the matrix tile, its width restricted as requested");
    for (SizeType y = 0; y < sz.cols(); ++y) for (SizeType x = 0; x < sz.rows(); ++x) { v(x + 8 * (gt % 8), y) = vf_real("value", 0); t({x, y}) = v(x + 8 * (gt % 8), y); }
  }
  vf_check(nt == want, "the panel has every owned tile of its range");
  for (const auto& ij : p.iteratorLocal()) {
    const SizeType gt = d.global_tile_from_local_tile<C>(ij.template get<C>());
    auto t = tt::sync_wait(p.read(ij));
    if (external && gt == w.start) { same(t.get()({0, 0}), 7., "an external tile is the tile given"); continue; }
    for (SizeType y = 0; y < t.get().size().cols(); ++y) for (SizeType x = 0; x < t.get().size().rows(); ++x) same(t.get()({x, y}), v(x + 8 * (gt % 8), y), "distinct panel tiles do not share memory");
  }
}
template <Coord A, StoreTransposed S> static void ranges(const Distribution& d) {
  constexpr Coord C = orthogonal(A);
  const int64_t nt = d.nr_tiles().get<C>(), tsz = d.tile_size().get<C>(), n = d.size().get<C>(), asz = d.tile_size().get<A>();
  const int64_t c0 = vf_pick("constructor start", 0, nt > 1 ? 1 : 0);
  P_<A, S> p(d, GlobalTileIndex(C, c0));
  Want w{c0, nt, 0, -1};
  const int64_t steps = vf_param("uses", 2);
  for (int64_t k = 0; k < steps; ++k) {
    // change the range
    // (an earlier use leaves a state behind: its variants are the ones that set different state)
    const bool last = k == steps - 1;
    static const int64_t kinds[] = {3, 1};
    const int64_t kind = last ? vf_pick("range kind", 0, 4) : kinds[vf_pick("earlier range kind", 0, 1)];
    if (kind == 1) { w.start = vf_pick("start", c0, nt); w.end = vf_pick("end", w.start, nt); w.off = 0; p.setRange(GlobalTileIndex(C, w.start), GlobalTileIndex(C, w.end)); }
    if (kind == 2) { w.start = vf_pick("start", c0, w.end); w.off = 0; p.setRangeStart(GlobalTileIndex(C, w.start)); }
    if (kind == 3) {
      int64_t hi = w.end * tsz < n ? w.end * tsz : n;
      vf_assume(c0 * tsz < hi);
      const int64_t e = vf_pick("start element", c0 * tsz, hi - 1);
      w.start = e / tsz;
      w.off = e % tsz;
      p.setRangeStart(GlobalElementIndex(C, e));
    }
    if (kind == 4) { w.end = vf_pick("end", w.start, nt); p.setRangeEnd(GlobalTileIndex(C, w.end)); }
    if (asz > 1 && (!last || vf_pick("restrict", 0, 1))) { w.dim = asz - 1; set_dim<A>(p, w.dim); }
    if (k == 0) vf_shard();
    const int64_t can = w.off || w.start == w.end ? 0 : 1, ext = last ? vf_pick("external", 0, can) : can;
    const int64_t len = w.start < nt ? d.global_tile_size_of<C>(w.start) : 1, dim = w.dim < 0 ? asz : w.dim;
    const LocalElementSize es = tr<S>() ? LocalElementSize(C, dim, len) : LocalElementSize(A, dim, len);
    Mat<double> e(es, TileElementSize(es.rows(), es.cols()));
    each(e, [](int64_t, int64_t, double& x) { x = 7.; });
    use<A, S>(p, d, w, e, ext);
    p.reset();
    w.dim = -1;
  }
  vf_cover("ranges");
}
static Distribution pick_dist() {
  const Setup s = pick_setup(1, vf_param("grids", 4));
  const comm::Index2D rank(s.P > 1 ? (int) vf_pick("rank row", 0, s.P - 1) : 0, s.Q > 1 ? (int) vf_pick("rank col", 0, s.Q - 1) : 0);
  const int64_t n = vf_pick("n", 1, vf_param("n", 5)), nb = vf_pick("tile", 1, 2);
  return s.dis(n, n, nb, nb, rank);
}
extern "C" void c17_range() {
  const int64_t k = vf_pick("axis and storage", 0, 3);
  const Distribution d = pick_dist();
  if (k == 0) ranges<Coord::Col, StoreTransposed::No>(d);
  if (k == 1) ranges<Coord::Row, StoreTransposed::No>(d);
  if (k == 2) ranges<Coord::Col, StoreTransposed::Yes>(d);
  if (k == 3) ranges<Coord::Row, StoreTransposed::Yes>(d);
}
// ---- broadcasts
template <Coord A> static auto pipe(comm::CommunicatorGrid& g) { if constexpr (A == Coord::Col) return g.row_communicator_pipeline(); else return g.col_communicator_pipeline(); }
template <Coord A, StoreTransposed S, StoreTransposed ST> static void bcast(const Setup& s, int64_t n, int64_t nb, int root, int64_t start, int64_t end, bool restrict, bool both, int64_t startT, int64_t endT) {
  constexpr Coord C = orthogonal(A);
  Full<double> v(n, nb);  // value of (element along the panel, element across it)
  v.fill("panel");
  const int64_t dim = restrict ? nb - 1 : nb;
  auto at = [&](int64_t gt, SizeType x, SizeType y, bool t) -> double& { return t ? v(gt * nb + y, x) : v(gt * nb + x, y); };
  run(s, [&](comm::CommunicatorGrid* g, comm::Index2D rank) {
    const Distribution d = s.dis(n, n, nb, nb, rank);
    P_<A, S> p(d, GlobalTileIndex(C, start));
    P_<C, ST> q(d, GlobalTileIndex(A, startT));
    p.setRangeEnd(GlobalTileIndex(C, end));
    q.setRangeEnd(GlobalTileIndex(A, endT));
    if (restrict) { set_dim<A>(p, dim); set_dim<C>(q, dim); }
    // orientation of the stored tiles: a column panel holds (along, across) unless stored transposed
    const bool flip = (A == Coord::Row) != tr<S>();
    if (rank.get<A>() == root)
      for (const auto& ij : p.iteratorLocal()) {
        auto t = tt::sync_wait(p.readwrite(ij));
        const int64_t gt = d.global_tile_from_local_tile<C>(ij.template get<C>());
        for (SizeType y = 0; y < t.size().cols(); ++y) for (SizeType x = 0; x < t.size().rows(); ++x) t({x, y}) = at(gt, x, y, flip);
      }
    if (!both) { auto c = pipe<A>(*g); comm::broadcast(root, p, c); }
    else {
      auto rc = g->row_communicator_pipeline();
      auto cc = g->col_communicator_pipeline();
      comm::broadcast(root, p, q, rc, cc);
    }
    for (const auto& ij : p.iteratorLocal()) {
      auto t = tt::sync_wait(p.read(ij));
      const int64_t gt = d.global_tile_from_local_tile<C>(ij.template get<C>());
      vf_check(t.get().size() == (flip ? TileElementSize(dim, d.global_tile_size_of<C>(gt)) : TileElementSize(d.global_tile_size_of<C>(gt), dim)), "size of a panel tile");
      for (SizeType y = 0; y < t.get().size().cols(); ++y) for (SizeType x = 0; x < t.get().size().rows(); ++x) same(t.get()({x, y}), at(gt, x, y, flip), "every rank has the tiles of the root's panel for its rows or columns");
    }
    if (both)
      for (const auto& ij : q.iteratorLocal()) {
        auto t = tt::sync_wait(q.read(ij));
        const int64_t gt = d.global_tile_from_local_tile<A>(ij.template get<A>());
        for (SizeType y = 0; y < t.get().size().cols(); ++y) for (SizeType x = 0; x < t.get().size().rows(); ++x) same(t.get()({x, y}), at(gt, x, y, flip), "the transposed panel has the tiles of the mirrored positions");
      }
  });
  vf_cover(both ? "transposed broadcast" : "broadcast");
}
extern "C" void c17_bcast() {
  const Setup s = pick_setup(1, vf_param("grids", 4));
  const bool row = vf_pick("row panel", 0, 1), both = vf_pick("transposed", 0, 1);
  const int root = (int) vf_pick("root", 0, (row ? s.P : s.Q) - 1);
  const int64_t nb = vf_pick("tile", 1, 2), n = nb == 1 ? 4 : 5;
  const int64_t nt = (n + nb - 1) / nb, start = vf_pick("start", 0, 1), end = vf_pick("end", nt - 1, nt);
  // the transposed panel has the range of the panel, or a smaller one
  const int64_t startT = both ? vf_pick("transposed start", start, start + 1) : start, endT = both ? vf_pick("transposed end", end - 1, end) : end;
  vf_assume(startT <= endT);
  const bool restrict = nb > 1 && endT < nt && vf_pick("restrict", 0, 1);
  const bool st = vf_pick("stored transposed", 0, 1);
  static const int pol[] = {0, 3};
  mini::policy = pol[vf_pick("scheduler", 0, 1)];
  vf_shard();
  // a tile keeps its orientation when it is linked into the other panel: the storage of the two panels must agree
  // (the widths across the last partial tile differ, as documented it is not transposed)
  constexpr auto N = StoreTransposed::No, Y = StoreTransposed::Yes;
  if (row) { if (st) bcast<Coord::Row, Y, N>(s, n, nb, root, start, end, restrict, both, startT, endT); else bcast<Coord::Row, N, Y>(s, n, nb, root, start, end, restrict, both, startT, endT); }
  else { if (st) bcast<Coord::Col, Y, N>(s, n, nb, root, start, end, restrict, both, startT, endT); else bcast<Coord::Col, N, Y>(s, n, nb, root, start, end, restrict, both, startT, endT); }
}
