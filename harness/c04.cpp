// C04: helper indices and ranges derived from a distribution, against closed formulas.
#include "dist1d.h"
#include <dlaf/matrix/views.h>
namespace di = dlaf::matrix::internal::distribution;
namespace {
int64_t tile_place(const D1& d) {
  return vf_i64("round", 0, BIG / (d.B * d.P)) * d.P * d.tpb + (d.P <= 5 ? vf_pick("block_in_round", 0, d.P - 1) : vf_i64("block_in_round", 0, d.P - 1)) * d.tpb + vf_i64("tile_in_block", 0, d.tpb - 1) - d.first_tile();
}
int64_t el_before(const D1& d, int64_t t) {  // elements in tiles [0, t)
  if (t == 0) return 0;
  if (t == d.tiles()) return d.n;
  return (d.first_tile() + t) * d.nb - d.off;
}
}

// helpers for another rank: the distribution itself is seen by an unrelated rank
extern "C" void c04_on_rank() {
  Cfg c = cfg();
  D1 d = c.d;
  const int64_t e = place(d, "element") - d.off;
  vf_assume(e >= 0 && e < d.n);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    const int r = (int) d.owner(e);
    D1 o = d;
    o.rank = r;
    const int64_t le = o.local_el(e), lt = o.local_tiles_before(d.tile(e));
    vf_cover("on rank");
    vf_check(di::global_element_from_local_element_on_rank<rc>(x, r, le) == e, "global element of the local element of a rank");
    vf_check(di::local_tile_from_local_element_on_rank<rc>(x, r, le) == lt, "local tile of the local element of a rank");
    vf_check(di::tile_element_from_local_element_on_rank<rc>(x, r, le) == d.tile_el(e), "element in tile of the local element of a rank");
    vf_check(di::global_tile_from_local_tile_on_rank<rc>(x, r, lt) == d.tile(e), "global tile of the local tile of a rank");
    vf_check(di::local_tile_from_global_tile_any_rank<rc>(x, d.tile(e)) == lt, "local tile on the owner");
  });
}

// element counts of tile ranges
extern "C" void c04_distance() {
  Cfg c = cfg();
  const D1& d = c.d;
  const int64_t b = tile_place(d), e = tile_place(d);
  vf_assume(0 <= b && b <= e && e <= d.tiles() && b < d.tiles());
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_cover("range of tiles");
    const int64_t xb = el_before(d, b), xe = el_before(d, e);
    vf_check(di::global_tile_element_distance<rc>(x, b, e) == xe - xb, "elements in a range of global tiles");
    const int64_t lb = d.local_tiles_before(b), le = d.local_tiles_before(e);
    const int64_t want = d.count(d.off + xe, d.B) - d.count(d.off + xb, d.B);
    vf_check(di::local_element_distance_from_global_tile<rc>(x, b, e) == want, "owned elements in a range of global tiles");
    vf_check(x.next_local_tile_from_global_tile<rc>(b) == lb && x.next_local_tile_from_global_tile<rc>(e) == le, "local range of a range of global tiles");
    vf_check(di::local_element_distance_from_local_tile<rc>(x, lb, le) == want, "elements in a range of local tiles");
    if (lb == le) vf_cover("no owned tile in the range");
  });
}

extern "C" void c04_next_local_element() {
  Cfg c = cfg();
  const D1& d = c.d;
  const int64_t e = place(d, "element") - d.off;
  vf_assume(e >= 0 && e < d.n);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_cover("next local tile of an element");
    vf_check(x.next_local_tile_from_global_element<rc>(e) == d.local_tiles_before(d.tile(e)), "first owned tile at or after the tile of an element");
  });
}

// the description of the blocks as tiles
extern "C" void c04_blocks_as_tiles() {
  Cfg c = cfg();
  const D1& d = c.d;
  const int64_t e = place(d, "element") - d.off;
  vf_assume(e >= 0 && e < d.n);
  Distribution x = make(c);
  Distribution y = matrix::internal::create_single_tile_per_block_distribution(x);
  D1 b = d;
  b.nb = d.B;
  b.tpb = 1;
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_cover("blocks as tiles");
    vf_check(y.single_tile_per_block(), "one tile per block");
    vf_check(y.size() == x.size() && y.local_size() == x.local_size() && y.block_size() == x.block_size() && y.grid_size() == x.grid_size() && y.rank_index() == x.rank_index() && y.offset() == x.offset() && y.source_rank_index() == x.source_rank_index(), "same matrix");
    vf_check(y.tile_size().get<rc>() == d.B, "tile size is the block size");
    vf_check(y.nr_tiles().get<rc>() == b.tiles(), "number of tiles is the number of blocks");
    vf_check(y.local_nr_tiles().get<rc>() == b.local_tiles_before(b.tiles()), "number of local tiles is the number of local blocks");
    const int64_t t = y.global_tile_from_global_element<rc>(e);
    vf_check(t == b.tile(e) && y.tile_element_from_global_element<rc>(e) == b.tile_el(e), "block of an element");
    vf_check(y.rank_global_tile<rc>(t) == d.owner(e), "owner of a block");
    vf_check(y.global_tile_size_of<rc>(t) == b.tile_size(t), "extent of a block");
    if (d.owner(e) == d.rank) {
      vf_cover("owned block");
      const int64_t lt = y.local_tile_from_global_tile<rc>(t);
      vf_check(lt == b.local_tiles_before(t) && y.local_tile_size_of<rc>(lt) == b.tile_size(t), "local block");
    }
  });
}

// views: the range of local tiles and the window of every tile
extern "C" void c04_view() {
  Cfg c = cfg();
  const D1& d = c.d;
  const int64_t o = place(d, "start") - d.off;
  vf_assume(o >= 0 && o < d.n);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    constexpr Coord oc = rc == Coord::Row ? Coord::Col : Coord::Row;
    const GlobalElementIndex start = mk<GlobalElementIndex>(c.rc, o, 4);  // other coordinate: local elements 3..6, element 4 = second element of its tile
    matrix::SubMatrixView v(x, start);
    vf_cover("view");
    const int64_t b = d.local_tiles_before(d.tile(o)), e = d.local_tiles_before(d.tiles());
    vf_check(v.offset().get<rc>() == d.tile(o) && v.offsetElement() == start, "first tile");
    vf_check(v.begin().get<rc>() == b && v.begin().get<oc>() == 0, "first owned tile");
    auto r = v.iteratorLocal();
    // other coordinate: owned tiles 0 and 1 are both in the view
    vf_check((r.begin() == r.end()) == (b == e), "empty iff no owned tile");
    if (b < e) vf_check(*r.begin() == mk<LocalTileIndex>(c.rc, b, 0), "first tile of the range");
    const int64_t t = vf_i64("tile", 0, BIG);
    vf_assume(t >= b && t < e);
    vf_cover("tile of the view");
    const matrix::SubTileSpec s = v(mk<LocalTileIndex>(c.rc, t, 0));
    const int64_t ts = x.local_tile_size_of<rc>(t);
    const int64_t first = x.global_element_from_local_tile_and_tile_element<rc>(t, 0);
    const int64_t skip = first < o ? o - first : 0;
    vf_check(s.origin.get<rc>() == skip && s.size.get<rc>() == ts - skip, "window of the tile");
    vf_check(s.origin.get<oc>() == 1 && s.size.get<oc>() == 1, "window of the tile, other coordinate");
  });
}

// panel view: one column of tiles, arbitrary rows (zero offset); on a rank that owns the column
extern "C" void c04_panel_view() {
  Cfg c = cfg();
  D1 d = c.d;
  d.src = (d.src + d.off / d.B) % d.P;
  c.d = d;
  vf_assume(d.off == 0 && c.rc == 0);
  const int64_t o = place(d, "start") - d.off;
  vf_assume(o >= 0 && o < d.n);
  const int64_t co = vf_i64("start_column", 0, 9), nc = vf_i64("columns", 0, 4);
  vf_assume(co % 4 + nc <= 4);
  // columns: 10 elements in tiles of 4, one process
  Distribution x(GlobalElementSize(d.n, 10), GlobalElementSize(d.B, 4), TileElementSize(d.nb, 4), comm::Size2D((int) d.P, 1), comm::Index2D((int) d.rank, 0), comm::Index2D((int) d.src, 0));
  matrix::SubPanelView v(x, {o, co}, nc);
  vf_cover("panel view");
  vf_check(v.cols() == nc, "columns");
  const int64_t b = d.local_tiles_before(d.tile(o)), e = d.local_tiles_before(d.tiles());
  vf_check(v.begin() == LocalTileIndex(b, co / 4), "first owned tile");
  auto r = v.iteratorLocal();
  vf_check((r.begin() == r.end()) == (b == e), "empty iff no owned tile");
  const int64_t t = vf_i64("tile", 0, BIG);
  vf_assume(t >= b && t < e);
  vf_cover("tile of the panel view");
  const matrix::SubTileSpec s = v({t, co / 4});
  const int64_t ts = x.local_tile_size_of<Coord::Row>(t);
  const int64_t first = x.global_element_from_local_tile_and_tile_element<Coord::Row>(t, 0);
  const int64_t skip = first < o ? o - first : 0;
  const int64_t width = 10 - co < nc ? 10 - co : nc;
  vf_check(s.origin == TileElementIndex(skip, co % 4) && s.size == TileElementSize(ts - skip, width), "window of the tile");
}
