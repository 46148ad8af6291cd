// C03: a sub-distribution against its parent.
#include "dist1d.h"
namespace {
struct W { Cfg c; int64_t o, m; };
W window() {
  W w;
  w.c = cfg();
  const D1& d = w.c.d;
  w.o = place(d, "origin") - d.off;
  w.m = place(d, "sub_end") - d.off - w.o;
  vf_assume(w.o >= 0 && w.m >= 0 && w.o + w.m <= d.n);
  return w;
}
matrix::SubDistributionSpec spec(int rc, int64_t o, int64_t m, int64_t oo = 2, int64_t om = 3) {
  return {mk<GlobalElementIndex>(rc, o, oo), mk<GlobalElementSize>(rc, m, om)};
}
}

extern "C" void c03_attributes() {
  W w = window();
  const D1& d = w.c.d;
  const Distribution p = make(w.c);
  const Distribution s(p, spec(w.c.rc, w.o, w.m));
  D1 sd = d;
  sd.off = d.off + w.o;
  sd.n = w.m;
  on(w.c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    constexpr Coord oc = rc == Coord::Row ? Coord::Col : Coord::Row;
    vf_cover("window");
    if (w.m == 0) vf_cover("empty window");
    vf_check(s.size().get<rc>() == w.m && s.size().get<oc>() == 3, "size of the window");
    vf_check(s.tile_size() == p.tile_size() && s.block_size() == p.block_size() && s.grid_size() == p.grid_size() && s.rank_index() == p.rank_index(), "tile size, block size, grid and rank are kept");
    vf_check(s.nr_tiles().get<rc>() == sd.tiles(), "number of tiles of the window");
    vf_check(s.local_size().get<rc>() == sd.local_size(), "local size of the window");
    vf_check(s.local_nr_tiles().get<rc>() == sd.local_tiles_before(sd.tiles()), "local number of tiles of the window");
    if (w.m > 0) {
      vf_check(s.source_rank_index().get<rc>() == p.rank_global_element<rc>(w.o), "source rank is the owner of the first element");
      // in the other coordinate: offset 1, origin 2, 3 elements, blocks of 4, grid 5, source 2: positions 3..5
      vf_check(s.source_rank_index().get<oc>() == 2 && s.offset().get<oc>() == 3 && s.nr_tiles().get<oc>() == 2, "other coordinate");
      namespace di = matrix::internal::distribution;
      vf_check(di::is_compatible_sub_distribution(p, mk<GlobalElementIndex>(w.c.rc, w.o, 2), s), "recognised as a sub-distribution");
    }
  });
}

extern "C" void c03_element() {
  W w = window();
  const D1& d = w.c.d;
  const int64_t e = place(d, "element") - d.off - w.o;
  vf_assume(e >= 0 && e < w.m);
  const Distribution p = make(w.c);
  const Distribution s(p, spec(w.c.rc, w.o, w.m));
  on(w.c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_cover("element");
    const int64_t pe = w.o + e;
    vf_check(s.rank_global_element<rc>(e) == p.rank_global_element<rc>(pe), "same rank");
    const int64_t st = s.global_tile_from_global_element<rc>(e), pt = p.global_tile_from_global_element<rc>(pe);
    const int64_t pt0 = p.global_tile_from_global_element<rc>(w.o);
    vf_check(st + pt0 == pt, "same parent tile");
    const GlobalTileIndex g = matrix::internal::distribution::global_tile_index_from_sub_distribution(p, mk<GlobalElementIndex>(w.c.rc, w.o, 2), s, mk<GlobalTileIndex>(w.c.rc, st, 0));
    const TileElementIndex go = matrix::internal::distribution::tile_element_offset_from_sub_distribution(p, mk<GlobalElementIndex>(w.c.rc, w.o, 2), s, mk<GlobalTileIndex>(w.c.rc, st, 0));
    vf_check(g.get<rc>() == pt, "tile index helper");
    vf_check(s.tile_element_from_global_element<rc>(e) + go.get<rc>() == p.tile_element_from_global_element<rc>(pe), "same position in the parent tile");
    // tile boundaries: parent tile clipped to the window
    int64_t b = d.pos(pe) / d.nb * d.nb, en = b + d.nb;
    if (b < d.off + w.o) b = d.off + w.o;
    if (en > d.off + w.o + w.m) en = d.off + w.o + w.m;
    vf_check(s.global_tile_size_of<rc>(st) == en - b, "tile extent is the parent tile clipped to the window");
    if (s.rank_index().get<rc>() == d.owner(pe)) {
      vf_cover("owned element");
      vf_check(s.local_element_from_global_element<rc>(e) + (d.local_el(w.o)) == p.local_element_from_global_element<rc>(pe), "same local element");
    }
    else vf_check(s.local_tile_from_global_element<rc>(e) == -1, "not local");
  });
}

// window of a window
extern "C" void c03_nested() {
  W w = window();
  const D1& d = w.c.d;
  const int64_t o2 = place(d, "origin2") - d.off - w.o, m2 = place(d, "end2") - d.off - w.o - o2;
  vf_assume(o2 >= 0 && m2 >= 0 && o2 + m2 <= w.m);
  const Distribution p = make(w.c);
  const Distribution s(p, spec(w.c.rc, w.o, w.m, 2, 3));
  const Distribution s2(s, spec(w.c.rc, o2, m2, 1, 2));
  const Distribution t(p, spec(w.c.rc, w.o + o2, m2, 3, 2));
  vf_cover("nested");
  vf_check(s2 == t, "window of a window is the window at the sum of the origins");
}

// windows that are not inside the parent are refused
extern "C" void c03_refused() {
  const int rc = (int) vf_pick("coordinate", 0, 1);
  vf_shard();
  const int64_t n = vf_i64("size", 0, 1ll << 60), o = vf_i64("origin", -(1ll << 60), 1ll << 60), m = vf_i64("sub_size", -(1ll << 60), 1ll << 60);
  Distribution p(mk<GlobalElementSize>(rc, n, ON), mk<TileElementSize>(rc, 3, ONB), mk<comm::Size2D>(rc, 2, OP), mk<comm::Index2D>(rc, 1, OR), mk<comm::Index2D>(rc, 1, OS), mk<GlobalElementIndex>(rc, 0, 1));
  vf_allow_abort(1);
  Distribution s(p, spec(rc, o, m));
  vf_cover("accepted");
  vf_check(o >= 0 && m >= 0 && o + m <= n, "an accepted window is inside the parent");
  vf_check(s.size() == mk<GlobalElementSize>(rc, m, 3), "size");
}
