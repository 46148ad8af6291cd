// C01: util_distribution.h against an inductive (counting) definition of the block-cyclic map.
#include "vf.h"
#include <dlaf/matrix/util_distribution.h>
using dlaf::SizeType;
using namespace dlaf::util::matrix;

static const int64_t NB[] = {1, 2, 3, 4, 5, 7, 8, 13, 64, 100, 1023, 1ll << 20, 46341, (1ll << 31) - 1, (1ll << 31) + 11, (1ll << 40) + 3, 6, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 4096, 65536, (1ll << 32), (1ll << 33) - 7};
static const int64_t TPB[] = {1, 2, 3, 4, 7, 16, 1000, (1ll << 31) + 1, (1ll << 33) + 5, 5, 6, 8, 9, 10, 12, 31, 64, 100, 255, 1ll << 16, (1ll << 31) - 1, 1ll << 31, (1ll << 32) + 7};
static const int64_t GS[] = {1, 2, 3, 4, 5, 8, 46341, 1 << 30, 6, 7, 9, 10, 12, 16, 17, 32, 100, 255, 256, 1000, 65536, 1000000007, 715827883};
static constexpr int64_t BIG = 1ll << 62;

extern "C" void c01_elements() {
  const SizeType nb = NB[vf_pick("tile_size_idx", 0, vf_param("n_nb", 16) - 1)];
  vf_shard();
  const SizeType off = vf_i64("tile_el_offset", 0, nb - 1);
  const SizeType e = vf_i64("element", 0, BIG);
  const SizeType t = tile_from_element(e, nb, off), te = tile_element_from_element(e, nb, off);
  vf_cover("elements");
  vf_check(t >= 0 && te >= 0 && te < nb, "tile and tile-element in range");
  vf_check(element_from_tile_and_tile_element(t, te, nb, off) == e, "element -> (tile, tile element) -> element");
  vf_check(tile_from_element(0, nb, off) == 0 && tile_element_from_element(0, nb, off) == 0, "first element");
  // successor: next element is either the next one of the same tile or the first one of the next tile
  const SizeType t1 = tile_from_element(e + 1, nb, off), te1 = tile_element_from_element(e + 1, nb, off);
  const SizeType extent = t == 0 ? nb - off : nb;
  if (te + 1 < extent) {
    vf_cover("inside a tile");
    vf_check(t1 == t && te1 == te + 1, "successor stays in the tile");
  }
  else {
    vf_cover("tile boundary");
    vf_check(t1 == t + 1 && te1 == 0, "successor starts the next tile");
  }
}

extern "C" void c01_element_of_tile() {
  const SizeType nb = NB[vf_pick("tile_size_idx", 0, vf_param("n_nb", 16) - 1)];
  vf_shard();
  const SizeType off = vf_i64("tile_el_offset", 0, nb - 1);
  const SizeType t = vf_i64("tile", 0, BIG / nb);
  const SizeType te = vf_i64("tile_el", 0, nb - 1);
  vf_assume(t > 0 || te < nb - off);
  const SizeType e = element_from_tile_and_tile_element(t, te, nb, off);
  vf_cover("element_of_tile");
  vf_check(e >= 0, "non-negative element");
  vf_check(tile_from_element(e, nb, off) == t, "(tile, tile element) -> element -> tile");
  vf_check(tile_element_from_element(e, nb, off) == te, "(tile, tile element) -> element -> tile element");
}

namespace {
struct Cfg {
  SizeType tpb;
  int P, src, rank;
  SizeType off;
};
Cfg cfg() {
  Cfg c;
  c.tpb = TPB[vf_pick("tpb_idx", 0, vf_param("n_tpb", 9) - 1)];
  c.P = (int) GS[vf_pick("grid_idx", 0, vf_param("n_gs", 8) - 1)];
  vf_shard();
  c.src = vf_i32("src_rank", 0, c.P - 1);
  c.rank = vf_i32("rank", 0, c.P - 1);
  c.off = vf_i64("tile_offset", 0, c.tpb - 1);
  return c;
}
}

// ownership: tile 0 is on the source rank, and ownership moves to the next rank at every block boundary
extern "C" void c01_owner() {
  Cfg c = cfg();
  const SizeType g = vf_i64("global_tile", 0, BIG);
  const int o = rank_global_tile(g, c.tpb, c.P, c.src, c.off);
  vf_cover("owner");
  vf_check(0 <= o && o < c.P, "owner is a rank of the grid");
  vf_check(rank_global_tile(0, c.tpb, c.P, c.src, c.off) == c.src, "first tile on the source rank");
  const int o1 = rank_global_tile(g + 1, c.tpb, c.P, c.src, c.off);
  if ((g + 1 + c.off) % c.tpb == 0) {
    vf_cover("block boundary");
    vf_check(o1 == (o == c.P - 1 ? 0 : o + 1), "next block on the next rank");
  }
  else {
    vf_cover("inside block");
    vf_check(o1 == o, "a block is on one rank");
  }
}

// next_local_tile counts the owned tiles before g; local_tile is that count on the owner and -1 elsewhere
extern "C" void c01_local() {
  Cfg c = cfg();
  const SizeType g = vf_i64("global_tile", 0, BIG);
  const bool mine = rank_global_tile(g, c.tpb, c.P, c.src, c.off) == c.rank;
  const SizeType n = next_local_tile_from_global_tile(g, c.tpb, c.P, c.rank, c.src, c.off);
  const SizeType n1 = next_local_tile_from_global_tile(g + 1, c.tpb, c.P, c.rank, c.src, c.off);
  vf_check(next_local_tile_from_global_tile(0, c.tpb, c.P, c.rank, c.src, c.off) == 0, "count of owned tiles starts at 0");
  vf_check(n1 - n == (mine ? 1 : 0), "count of owned tiles grows exactly by the owned tile");
  const SizeType l = local_tile_from_global_tile(g, c.tpb, c.P, c.rank, c.src, c.off);
  if (mine) {
    vf_cover("owner");
    vf_check(l == n, "local index on the owner is the number of owned tiles before");
    vf_check(global_tile_from_local_tile(l, c.tpb, c.P, c.rank, c.src, c.off) == g, "global -> local -> global");
  }
  else {
    vf_cover("not owner");
    vf_check(l == -1, "-1 on the other ranks");
  }
}

extern "C" void c01_global() {
  Cfg c = cfg();
  const __int128 span = (__int128) c.tpb * c.P;
  const SizeType l = vf_i64("local_tile", 0, BIG / c.P > 2 * c.tpb ? BIG / c.P - 2 * c.tpb : 0);
  (void) span;
  const SizeType g = global_tile_from_local_tile(l, c.tpb, c.P, c.rank, c.src, c.off);
  vf_cover("global");
  vf_check(g >= 0, "global index is not negative");
  vf_check(rank_global_tile(g, c.tpb, c.P, c.src, c.off) == c.rank, "local tile of a rank is owned by that rank");
  vf_check(local_tile_from_global_tile(g, c.tpb, c.P, c.rank, c.src, c.off) == l, "local -> global -> local");
}
