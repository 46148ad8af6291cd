// One coordinate of a block-cyclic distribution: closed formulas on absolute positions and the enumerated/symbolic
// configuration shared by the C02, C03 and C04 harnesses.
#pragma once
#include "vf.h"
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>
using namespace dlaf;
using matrix::Distribution;

static const int64_t NB[] = {3, 1, 64, 4, 5, 7, 2, 13, 100, 1000, 1ll << 16, (1ll << 31) - 1};
static const int64_t TPB[] = {1, 3, 2, 5, 4, 8, 7, 100};
static const int64_t GS[] = {1, 3, 2, 4, 5, 7, 16, 1000, 46341, 2147483647};
static constexpr int64_t BIG = 1ll << 60;

namespace {
struct D1 {  // one coordinate
  int64_t nb, tpb, B, P, src, rank, off, n;
  // closed formulas
  int64_t pos(int64_t e) const { return off + e; }
  int64_t owner(int64_t e) const { return (src + pos(e) / B) % P; }
  int64_t first_tile() const { return off / nb; }
  int64_t tiles() const { return n == 0 ? 0 : (off + n - 1) / nb - off / nb + 1; }
  int64_t tile(int64_t e) const { return pos(e) / nb - off / nb; }
  int64_t tile_el(int64_t e) const { return tile(e) == 0 ? e : pos(e) % nb; }
  int64_t tile_size(int64_t t) const {
    int64_t a = (first_tile() + t) * nb, b = a + nb;
    if (a < off) a = off;
    if (b > off + n) b = off + n;
    return b - a;
  }
  // owned positions below x in units of u per block
  int64_t count(int64_t x, int64_t per_block) const {
    const int64_t d = (rank - src % P + P) % P;
    const int64_t round = per_block * P;
    int64_t r = x % round - d * per_block;
    if (r < 0) r = 0;
    if (r > per_block) r = per_block;
    return x / round * per_block + r;
  }
  int64_t local_size() const { return count(off + n, B) - count(off, B); }
  int64_t local_el(int64_t e) const { return count(off + e, B) - count(off, B); }
  int64_t local_tiles_before(int64_t t) const { return count(first_tile() + t, tpb) - count(first_tile(), tpb); }
};
// the coordinate under test; the other coordinate has fixed different values, so that mix-ups are seen
struct Cfg { D1 d; int rc; };
// Every position in [0, BIG) written with the digits (round over the grid, block in the round, tile in the block,
// element in the tile); the digits are symbolic over their whole range, so that every position is covered.
int64_t place(const D1& d, const char* what) {
  auto digit = [&](const char* n, int64_t hi) { return vf_i64(n, 0, hi); };
  (void) what;
  const int64_t q = digit("round", BIG / (d.B * d.P)), b = d.P <= 5 ? vf_pick("block_in_round", 0, d.P - 1) : digit("block_in_round", d.P - 1), t = digit("tile_in_block", d.tpb - 1), x = digit("element_in_tile", d.nb - 1);
  return q * (d.B * d.P) + b * d.B + t * d.nb + x;
}
// a rank: case split for small grids, symbolic otherwise
int64_t rank(int64_t P, const char* name) { return P <= 5 ? vf_pick(name, 0, P - 1) : vf_i32(name, 0, P - 1); }
Cfg cfg() {
  Cfg c;
  c.rc = (int) vf_pick("coordinate", 0, 1);
  D1& d = c.d;
  d.nb = NB[vf_pick("nb_idx", 0, vf_param("n_nb", 4) - 1)];
  d.tpb = TPB[vf_pick("tpb_idx", vf_param("min_tpb", 0), vf_param("n_tpb", 3) - 1)];
  d.P = GS[vf_pick("grid_idx", vf_param("min_gs", 0), vf_param("n_gs", 3) - 1)];
  vf_shard();
  d.B = d.nb * d.tpb;
  d.src = vf_param("all_src", 1) ? rank(d.P, "src_rank") : d.P - 1;
  d.rank = rank(d.P, "rank");
  // an offset beyond the first block is the same distribution with another source rank and an offset inside the block
  // (decided by c02_equivalent), so that the other properties may look at offsets inside the first block only
  d.off = vf_param("big_offset", 1) ? place(d, "offset") : vf_i64("tile_in_block", 0, d.tpb - 1) * d.nb + vf_i64("element_in_tile", 0, d.nb - 1);
  d.n = place(d, "end") - d.off;
  vf_assume(d.n >= 0);
  return c;
}
constexpr int64_t ON = 7, ONB = 2, OTPB = 2;
constexpr int OP = 5, OR = 3, OS = 2;
template <class I2> I2 mk(int rc, int64_t a, int64_t other) {
  using T = typename I2::IndexType;
  return rc == 0 ? I2((T) a, (T) other) : I2((T) other, (T) a);
}
Distribution make(const Cfg& c) {
  const D1& d = c.d;
  return Distribution(mk<GlobalElementSize>(c.rc, d.n, ON), mk<GlobalElementSize>(c.rc, d.B, ONB * OTPB), mk<TileElementSize>(c.rc, d.nb, ONB),
                      mk<comm::Size2D>(c.rc, d.P, OP), mk<comm::Index2D>(c.rc, d.rank, OR), mk<comm::Index2D>(c.rc, d.src, OS), mk<GlobalElementIndex>(c.rc, d.off, 1));
}
template <class F> void on(int rc, F f) {
  if (rc == 0) f(std::integral_constant<Coord, Coord::Row>{});
  else f(std::integral_constant<Coord, Coord::Col>{});
}
}

