// C02: the block-cyclic partition described by a Distribution, against closed formulas on absolute positions.
// Absolute position of element e along one coordinate: offset + e; block = position / block_size is on rank
// (source + block) mod grid; a tile is a maximal piece of the matrix inside one multiple of tile_size.
#include "dist1d.h"

// sizes and tile counts
extern "C" void c02_sizes() {
  Cfg c = cfg();
  const D1& d = c.d;
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    constexpr Coord oc = rc == Coord::Row ? Coord::Col : Coord::Row;
    vf_cover("sizes");
    vf_check(x.size().get<rc>() == d.n && x.size().get<oc>() == ON, "size");
    vf_check(x.tile_size().get<rc>() == d.nb && x.block_size().get<rc>() == d.B, "tile and block size");
    vf_check(x.grid_size().get<rc>() == d.P && x.rank_index().get<rc>() == d.rank, "grid and rank");
    vf_check(x.nr_tiles().get<rc>() == d.tiles(), "number of tiles");
    vf_check(x.local_size().get<rc>() == d.local_size(), "local size is the number of owned elements");
    vf_check(x.local_nr_tiles().get<rc>() == d.local_tiles_before(d.tiles()), "local number of tiles is the number of owned tiles");
    // normalisation
    vf_check(x.offset().get<rc>() == d.off % d.B, "offset inside the first block");
    vf_check(x.source_rank_index().get<rc>() == (d.src + d.off / d.B) % d.P, "source rank after the skipped blocks");
    // other coordinate: offset 1, 7 elements, blocks of 4 = 2 tiles of 2, grid 5, source 2, rank 3: positions 4..7 -> elements 3..6
    vf_check(x.local_size().get<oc>() == 4 && x.local_nr_tiles().get<oc>() == 2 && x.nr_tiles().get<oc>() == 4, "other coordinate");
    if (d.n == 0) vf_cover("empty");
    if (d.off >= d.B) vf_cover("offset beyond a block");
  });
}

// number of blocks
extern "C" void c02_blocks() {
  Cfg c = cfg();
  const D1& d = c.d;
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_cover("blocks");
    const int64_t o = d.off % d.B;
    vf_check(x.nr_blocks().get<rc>() == (d.n == 0 ? 0 : (o + d.n - 1) / d.B + 1), "number of blocks that hold a part of the matrix");
    const int64_t nl = d.local_size(), lo = x.source_rank_index().get<rc>() == d.rank ? o : 0;
    vf_check(x.local_nr_blocks().get<rc>() == (nl == 0 ? 0 : (lo + nl - 1) / d.B + 1), "number of blocks that hold a local part of the matrix");
  });
}

// one global element
extern "C" void c02_element() {
  Cfg c = cfg();
  const D1& d = c.d;
  vf_assume(d.n > 0);
  const int64_t e = place(d, "element") - d.off;
  vf_assume(e >= 0 && e < d.n);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    const int64_t t = x.global_tile_from_global_element<rc>(e), te = x.tile_element_from_global_element<rc>(e);
    vf_cover("element");
    vf_check(t == d.tile(e) && te == d.tile_el(e), "global element -> tile, element in tile");
    vf_check(t >= 0 && t < x.nr_tiles().get<rc>() && te >= 0 && te < x.global_tile_size_of<rc>(t), "inside the tile");
    vf_check(x.global_element_from_global_tile_and_tile_element<rc>(t, te) == e, "tile, element in tile -> global element");
    vf_check(x.global_tile_size_of<rc>(t) == d.tile_size(t), "tile extent");
    const int r = x.rank_global_element<rc>(e);
    vf_check(r == d.owner(e) && r == x.rank_global_tile<rc>(t), "owner");
    vf_check(matrix::internal::distribution::distance_to_adjacent_tile<rc>(x, e) == x.global_tile_size_of<rc>(t) - te, "distance to the next tile");
  });
}

extern "C" void c02_local_of_global() {
  Cfg c = cfg();
  const D1& d = c.d;
  vf_assume(d.n > 0);
  const int64_t e = place(d, "element") - d.off;
  vf_assume(e >= 0 && e < d.n);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    const int64_t le = x.local_element_from_global_element<rc>(e);
    const int64_t lt = x.local_tile_from_global_element<rc>(e);
    if (d.owner(e) == d.rank) {
      vf_cover("owned");
      vf_check(le == d.local_el(e), "local element is the number of owned elements before");
      vf_check(lt == d.local_tiles_before(d.tile(e)), "local tile is the number of owned tiles before");
      vf_check(le >= 0 && le < x.local_size().get<rc>() && lt >= 0 && lt < x.local_nr_tiles().get<rc>(), "inside the local matrix");
    }
    else {
      vf_cover("not owned");
      vf_check(le == -1 && lt == -1, "-1 on the other ranks");
    }
  });
}

extern "C" void c02_global_of_local() {
  Cfg c = cfg();
  const D1& d = c.d;
  vf_assume(d.n > 0);
  // local position: digits, minus the part of the first local block that is before the offset
  int64_t le = vf_i64("local_block", 0, BIG / (d.B * d.P)) * d.B + vf_i64("local_tile_in_block", 0, d.tpb - 1) * d.nb + vf_i64("element_in_tile", 0, d.nb - 1);
  if (d.owner(0) == d.rank) le -= d.off % d.B;
  vf_assume(le >= 0);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_assume(le < x.local_size().get<rc>());
    const int64_t e = x.global_element_from_local_element<rc>(le);
    vf_cover("local element");
    vf_check(e >= 0 && e < d.n, "inside the matrix");
    vf_check(d.owner(e) == d.rank, "owned");
    vf_check(x.local_element_from_global_element<rc>(e) == le, "local -> global -> local");
    const int64_t lt = x.local_tile_from_local_element<rc>(le), te = x.tile_element_from_local_element<rc>(le);
    const int64_t gt = x.global_tile_from_local_tile<rc>(lt);
    vf_check(gt == x.global_tile_from_global_element<rc>(e), "tile of a local element");
    vf_check(te == x.tile_element_from_global_element<rc>(e), "element in tile of a local element");
    vf_check(x.local_element_from_local_tile_and_tile_element<rc>(lt, te) == le, "local tile, element in tile -> local element");
    vf_check(x.global_element_from_local_tile_and_tile_element<rc>(lt, te) == e, "local tile, element in tile -> global element");
    vf_check(x.local_tile_size_of<rc>(lt) == x.global_tile_size_of<rc>(gt), "tile extent, local and global");
  });
}

extern "C" void c02_next_local() {
  Cfg c = cfg();
  const D1& d = c.d;
  const int64_t t = vf_i64("round", 0, BIG / (d.B * d.P)) * d.P * d.tpb + (d.P <= 5 ? vf_pick("block_in_round", 0, d.P - 1) : vf_i64("block_in_round", 0, d.P - 1)) * d.tpb + vf_i64("tile_in_block", 0, d.tpb - 1) - d.first_tile();
  vf_assume(t >= 0);
  Distribution x = make(c);
  on(c.rc, [&](auto k) {
    constexpr Coord rc = decltype(k)::value;
    vf_assume(t <= x.nr_tiles().get<rc>());
    vf_cover("next local tile");
    vf_check(x.next_local_tile_from_global_tile<rc>(t) == d.local_tiles_before(t), "next local tile is the number of owned tiles before");
  });
}

// equivalent source rank / offset pairs and the other constructors give equal distributions
extern "C" void c02_equivalent() {
  Cfg c = cfg();
  const D1& d = c.d;
  vf_assume(d.off / d.B < 2147483648ll);
  Distribution x = make(c);
  const int rc = c.rc;
  const int src = (int) ((d.src + d.off / d.B) % d.P);
  const auto sz = mk<GlobalElementSize>(rc, d.n, ON);
  const auto bs = mk<GlobalElementSize>(rc, d.B, ONB * OTPB);
  const auto ts = mk<TileElementSize>(rc, d.nb, ONB);
  const auto gs = mk<comm::Size2D>(rc, d.P, OP);
  const auto ri = mk<comm::Index2D>(rc, d.rank, OR);
  vf_cover("equivalent");
  Distribution y(sz, bs, ts, gs, ri, mk<comm::Index2D>(rc, src, OS), mk<GlobalElementIndex>(rc, d.off % d.B, 1));
  vf_check(x == y && !(x != y), "equal distribution for the equivalent source rank and offset");
  Distribution z(sz, bs, ts, gs, ri, mk<comm::Index2D>(rc, d.src, OS), mk<GlobalTileIndex>(rc, d.off / d.nb, 0), mk<GlobalElementIndex>(rc, d.off % d.nb, 1));
  vf_check(x == z, "offset given in tiles and elements");
  if (d.tpb == 1) {
    // block size = tile size: constructors without a block size (the other coordinate gets blocks of one tile, too)
    const auto b1 = mk<GlobalElementSize>(rc, d.B, ONB);
    Distribution p(sz, b1, ts, gs, ri, mk<comm::Index2D>(rc, d.src, OS), mk<GlobalElementIndex>(rc, d.off, 1));
    Distribution q(sz, ts, gs, ri, mk<comm::Index2D>(rc, d.src, OS), mk<GlobalElementIndex>(rc, d.off, 1));
    Distribution r(sz, ts, gs, ri, mk<comm::Index2D>(rc, d.src, OS), mk<GlobalTileIndex>(rc, d.off / d.nb, 0), mk<GlobalElementIndex>(rc, d.off % d.nb, 1));
    vf_check(p == q && p == r, "constructors without block size");
    vf_check(p.single_tile_per_block(), "single tile per block");
    Distribution l(mk<LocalElementSize>(rc, d.n, ON), ts, mk<GlobalElementIndex>(rc, d.off, 1));
    Distribution l2(sz, b1, ts, {1, 1}, {0, 0}, {0, 0}, mk<GlobalElementIndex>(rc, d.off, 1));
    vf_check(l == l2, "local distribution is the distribution on a grid of one process");
  }
  else vf_check(!x.single_tile_per_block(), "more than one tile per block");
  // copies and moves
  Distribution cp = x;
  vf_check(cp == x, "copy");
  Distribution mv = std::move(cp);
  vf_check(mv == x && cp == Distribution(), "move leaves an empty distribution");
  Distribution as;
  as = std::move(mv);
  vf_check(as == x && mv == Distribution(), "move assignment leaves an empty distribution");
}

// an inequality in any single attribute is seen by operator==
extern "C" void c02_different() {
  const int rc = (int) vf_pick("coordinate", 0, 1);
  const int what = (int) vf_pick("attribute", 0, 5);
  vf_shard();
  int64_t a[2][6];
  for (int i = 0; i < 2; ++i) {
    a[i][0] = i == 1 && what != 0 ? a[0][0] : vf_i64("size", 0, 20);
    // the values of the second distribution are the first ones but for the chosen attribute
    auto pk = [&](int k, const char* n, int64_t lo, int64_t hi) { return i == 1 && k != what ? a[0][k] : vf_pick(n, lo, hi); };
    a[i][1] = pk(1, "tile_size", 1, 2) * (i == 1 && what != 1 ? 1 : 4);
    a[i][2] = pk(2, "tiles_per_block", 1, 2);
    a[i][3] = pk(3, "rank", 0, 1);
    a[i][4] = pk(4, "source", 0, 1);
    a[i][5] = pk(5, "offset", 0, 3);
  }
  for (int k = 0; k < 6; ++k) {
    if (k == what) vf_assume(a[0][k] != a[1][k]);
    else vf_assume(a[0][k] == a[1][k]);
  }
  auto mkd = [&](int i) {
    return Distribution(mk<GlobalElementSize>(rc, a[i][0], ON), mk<GlobalElementSize>(rc, a[i][1] * a[i][2], ONB * OTPB), mk<TileElementSize>(rc, a[i][1], ONB),
                        {rc == 0 ? 2 : OP, rc == 0 ? OP : 2}, mk<comm::Index2D>(rc, a[i][3], OR), mk<comm::Index2D>(rc, a[i][4], OS), mk<GlobalElementIndex>(rc, a[i][5], 1));
  };
  vf_cover("different");
  Distribution x = mkd(0), y = mkd(1);
  vf_check(x != y && !(x == y), "distributions that differ in one attribute are different");
}

// two-dimensional interface: the pair of the one-dimensional results
extern "C" void c02_two_dim() {
  const int64_t B[] = {4, 6}, nb[] = {2, 3};
  const int P[] = {2, 3};
  int64_t n[2], off[2], el[2];
  int src[2], rk[2];
  auto place2 = [&](int i) {
    return vf_i64("round", 0, BIG / (B[i] * P[i])) * (B[i] * P[i]) + vf_pick("block_in_round", 0, P[i] - 1) * B[i] + vf_i64("tile_in_block", 0, B[i] / nb[i] - 1) * nb[i] + vf_i64("element_in_tile", 0, nb[i] - 1);
  };
  // one coordinate at a time is arbitrary, the other one is fixed
  const int which = (int) vf_pick("coordinate", 0, 1);
  for (int i = 0; i < 2; ++i) {
    if (i == which) {
      src[i] = (int) vf_pick("src", 0, P[i] - 1);
      rk[i] = (int) vf_pick("rank", 0, P[i] - 1);
      off[i] = vf_i64("offset", 0, B[i] - 1);
      n[i] = place2(i) - off[i];
      el[i] = place2(i) - off[i];
      vf_assume(n[i] > 0 && el[i] >= 0 && el[i] < n[i]);
    }
    else { src[i] = 1; rk[i] = 0; off[i] = 2; n[i] = 19; el[i] = P[i] == 2 ? 7 : 15; }
  }
  vf_shard();
  Distribution x(GlobalElementSize(n[0], n[1]), GlobalElementSize(B[0], B[1]), TileElementSize(nb[0], nb[1]), comm::Size2D(P[0], P[1]), comm::Index2D(rk[0], rk[1]), comm::Index2D(src[0], src[1]), GlobalElementIndex(off[0], off[1]));
  GlobalElementIndex e(el[0], el[1]);
  const GlobalTileIndex t = x.global_tile_index(e);
  vf_cover("two dimensions");
  vf_check(t == GlobalTileIndex(x.global_tile_from_global_element<Coord::Row>(e.row()), x.global_tile_from_global_element<Coord::Col>(e.col())), "tile");
  const TileElementIndex te = x.tile_element_index(e);
  vf_check(te == TileElementIndex(x.tile_element_from_global_element<Coord::Row>(e.row()), x.tile_element_from_global_element<Coord::Col>(e.col())), "element in tile");
  vf_check(x.global_element_index(t, te) == e, "global element");
  vf_check(x.tile_size_of(t) == TileElementSize(x.global_tile_size_of<Coord::Row>(t.row()), x.global_tile_size_of<Coord::Col>(t.col())), "tile size");
  const comm::Index2D o = x.rank_global_tile(t);
  vf_check(o == comm::Index2D(x.rank_global_tile<Coord::Row>(t.row()), x.rank_global_tile<Coord::Col>(t.col())), "owner");
  namespace di = matrix::internal::distribution;
  vf_check(di::global_tile_linear_index(x, e) == t.row() + t.col() * x.nr_tiles().rows(), "linear tile index");
  if (o == x.rank_index()) {
    vf_cover("two dimensions, owned");
    const LocalTileIndex l = x.local_tile_index(t);
    vf_check(l == LocalTileIndex(x.local_tile_from_global_tile<Coord::Row>(t.row()), x.local_tile_from_global_tile<Coord::Col>(t.col())), "local tile");
    vf_check(x.global_tile_index(l) == t, "local tile -> global tile");
    vf_check(x.tile_size_of(l) == x.tile_size_of(t), "tile size by local index");
    vf_check(di::local_tile_linear_index(x, l) == l.row() + l.col() * x.local_nr_tiles().rows(), "local linear index");
  }
}
