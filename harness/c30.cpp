// C30: block sizes and worker counts derived from tuning parameters.
#include "vf.h"
#include <pika/mini.hpp>
#include <algorithm>
#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>
#include <dlaf/factorization/qr/t_factor_impl.h>
#include <dlaf/tune.h>
using namespace dlaf;
namespace ei = dlaf::eigensolver::internal;
namespace fi = dlaf::factorization::internal;
static const int64_t BIG = 1ll << 40;
static TuneParameters& tune() { mini::runtime_up = true; return getTuneParameters(); }
static const int64_t mins[] = {2, 3, 100, 5, 64, 7, 1000, 128, 12, 1ll << 20, 4, 6, 9, 97, 4096};
// the band: any block size below 'quotients' times the minimum
extern "C" void c30_band() {
  const int64_t b = mins[vf_pick("minimum", 0, vf_param("mins", 8) - 1)], q = vf_pick("quotient", 0, vf_param("quotients", 9) - 1);
  vf_shard();
  const int64_t nb = q * b + vf_i64("rest", 0, b - 1);
  vf_assume(nb >= 1);
  tune().eigensolver_min_band = b;
  const SizeType r = ei::getBandSize(nb);
  vf_check(r >= 1 && r <= nb, "the band is not larger than the block");
  bool divides = false;
  for (int64_t e = 1; e <= q + 1; ++e) divides = divides || r * e == nb;
  vf_check(divides, "the band divides the block size");
  vf_check(r >= b || r == nb, "the band is not below the minimum, unless it is the whole block");
  // no smaller divisor meets the minimum: a divisor d >= b has a cofactor e = nb / d <= q
  for (int64_t e = 2; e <= q; ++e) if (nb % e == 0) { vf_cover("divisor"); vf_check(nb / e >= r, "the band is the smallest divisor that meets the minimum"); }
  if (r == nb && q >= 2) vf_cover("no divisor");
  if (q < 2) vf_cover("small block");
  vf_check(tune().eigensolver_min_band == b, "tuning values are not changed");
}
// minimum larger than the block
extern "C" void c30_band_small() {
  const int64_t b = vf_i64("minimum", 2, BIG), nb = vf_i64("block", 1, BIG);
  vf_assume(nb < b);
  tune().eigensolver_min_band = b;
  vf_check(ei::getBandSize(nb) == nb, "a block below the minimum is the band");
  vf_cover("block below the minimum");
}
static const int64_t nbs[] = {1, 2, 3, 64, 100, 512, 8192, 10000, 7, 33, 1ll << 20, 4095};
extern "C" void c30_block_1d() {
  const int64_t nb = nbs[vf_pick("block", 0, 11)];
  vf_shard();
  const int64_t base = vf_i64("base", 1, BIG);
  tune().band_to_tridiag_1d_block_size_base = base;
  const SizeType r = ei::get1DBlockSize(nb);
  vf_check(r >= nb && r % nb == 0, "the 1D block is a positive multiple of the block size");
  vf_check(r <= base || r == nb, "the 1D block is not above its base, unless it is one block");
  vf_check(r + nb > base, "the 1D block is the largest multiple");
  vf_cover(base >= nb ? "several blocks" : "one block");
}
extern "C" void c30_workers() {
  mini::n_threads = vf_i32("threads", 1, 1 << 20);
  const uint64_t n = (uint64_t) mini::n_threads;
  mini::runtime_up = true;
  const TuneParameters t;
  vf_check(t.tfactor_num_threads >= 1 && t.tfactor_num_threads <= n, "default number of threads for the T factor");
  vf_check(t.red2band_panel_num_threads >= 1 && t.red2band_panel_num_threads <= n, "default number of threads for the panel");
  vf_check(t.tridiag_rank1_num_threads >= 1 && t.tridiag_rank1_num_threads <= n, "default number of threads for the rank-1 problem");
  vf_check(t.tfactor_num_streams >= 1 && t.eigensolver_min_band >= 2 && t.band_to_tridiag_1d_block_size_base >= 1 && t.bt_band_to_tridiag_hh_apply_group_size >= 1 && t.communicator_grid_num_pipelines >= 1, "defaults meet the preconditions of their uses");
  // any value a user may set
  auto& u = tune();
  u.tfactor_num_threads = vf_u64("tfactor threads", 0, ~0ull);
  u.red2band_panel_num_threads = vf_u64("panel threads", 0, ~0ull);
  u.tridiag_rank1_num_threads = vf_u64("rank-1 threads", 0, ~0ull);
  u.tfactor_num_streams = vf_u64("streams", 0, ~0ull);
  auto in = [&](std::size_t w, std::size_t asked, std::size_t top, const char* m) {
    vf_check(w >= 1 && w <= n, "a number of workers is between one and the number of threads");
    vf_check(w == (asked < 1 ? 1 : asked > top ? top : asked), m);
  };
  const std::size_t spare = n > 1 ? n - 1 : 1;
  in(fi::get_tfactor_num_workers<Backend::MC>(), u.tfactor_num_threads, spare, "T factor workers: the value set, within the threads (one left free)");
  in(ei::get_red2band_panel_num_workers(), u.red2band_panel_num_threads, spare, "panel workers: the value set, within the threads (one left free)");
  in(ei::get_tridiag_rank1_num_workers(), u.tridiag_rank1_num_threads, n, "rank-1 workers: the value set, within the threads");
  vf_check(fi::get_tfactor_num_workers<Backend::GPU>() >= 1, "at least one stream");
  vf_check(ei::get_red2band_panel_worker_minwork() >= 1, "minimum work");
  vf_cover("workers");
}
// the work of the T factor: every tile belongs to one worker and every worker exists
extern "C" void c30_split() {
  mini::n_threads = (int) vf_pick("threads", 1, vf_param("threads", 9));
  const uint64_t n = (uint64_t) mini::n_threads;
  auto& u = tune();
  u.tfactor_num_threads = vf_u64("tfactor threads", 0, ~0ull);
  vf_shard();
  const uint64_t tiles = vf_u64("tiles", 1, (uint64_t) BIG);
  const auto p = fi::tfactor_l::split_tfactor_work<Backend::MC>(tiles);
  vf_check(p.nworkers >= 1 && p.nworkers <= n, "workers exist");
  vf_check(p.batch_size >= 1, "every worker has work");
  // nworkers is concrete on each path once compared with the possible values
  for (uint64_t w = 1; w <= n; ++w) if (p.nworkers == w) {
    vf_check(p.batch_size * w >= tiles, "the batches cover all the tiles");
    vf_check(w == 1 || p.batch_size * (w - 1) < tiles, "no worker is without a tile");
    if (w > 1) vf_cover("split");
    if (w == 1) vf_cover("one worker");
  }
}
