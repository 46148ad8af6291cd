// C13: process grids.
#include "vf.h"
#include <pika/mini.hpp>
#include <pika/mpi.hpp>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/sync/all_reduce.h>
#include "sim_mpi.h"
using namespace dlaf;
using namespace dlaf::comm;
namespace tt = pika::this_thread::experimental;
struct Cfg { int n, rows, cols, pools; common::Ordering ord; long val[8]; int pos[8]; };
static int world_of(const Cfg& c, int r, int k) { return c.ord == common::Ordering::RowMajor ? r * c.cols + k : k * c.rows + r; }
template <CommunicatorType CT, class F> static void rotation(const Cfg& c, F next, MPI_Comm own, int rank, int size, Index2D pos) {
  MPI_Comm seen[4];
  for (int i = 0; i < 2 * c.pools + 1; ++i) {
    CommunicatorPipeline<CT> p = next();
    vf_check(p.rank() == rank && p.size() == size, "a pipeline reports the rank and size of its communicator");
    vf_check(p.rank_2d() == pos && p.size_2d() == Size2D(c.rows, c.cols), "a pipeline reports the position in the grid and the grid size");
    for (int r = 0; r < c.rows; ++r)
      for (int k = 0; k < c.cols; ++k) vf_check(p.rank_full_communicator(Index2D(r, k)) == r * c.cols + k, "rank in the full communicator of a position");
    auto w = tt::sync_wait(p.exclusive());
    Communicator& x = w.get();
    MPI_Comm h = x;
    vf_check(x.rank() == rank && x.size() == size, "copy of the communicator: rank and size");
    for (int m = 0; m < size; ++m) vf_check(sim_world_rank(h, m) == sim_world_rank(own, m), "copy of the communicator: same members in the same order");
    vf_check(!sim_same_group(h, own), "the copy does not share its messages with the original");
    if (i < c.pools) {
      for (int j = 0; j < i; ++j) vf_check(!sim_same_group(seen[j], h), "the copies of the pool are different communicators");
      seen[i] = h;
    }
    else vf_check(seen[i % c.pools] == h, "the copies of the pool are handed out in strict rotation");
  }
}
static void rank_main(int me, void* a) {
  Cfg& c = *(Cfg*) a;
  {
    CommunicatorGrid g(Communicator(MPI_COMM_WORLD), c.rows, c.cols, c.ord, (std::size_t) c.pools);
    if (me >= c.rows * c.cols) {
      vf_cover("outside");
      vf_check(g.size() == Size2D(0, 0) && g.num_pipelines() == 0, "a process outside the grid holds no part of it");
      c.pos[me] = -1;
      return;
    }
    vf_check(g.size() == Size2D(c.rows, c.cols), "grid size");
    const Index2D p = g.rank();
    vf_check(p.row() >= 0 && p.row() < c.rows && p.col() >= 0 && p.col() < c.cols, "the position is in the grid");
    vf_check(world_of(c, p.row(), p.col()) == me, "positions follow the requested ordering");
    c.pos[me] = p.row() * c.cols + p.col();
    Communicator &full = g.fullCommunicator(), &row = g.rowCommunicator(), &col = g.colCommunicator();
    vf_check(&g.subCommunicator(Coord::Row) == &row && &g.subCommunicator(Coord::Col) == &col, "communicator of a coordinate");
    vf_check(full.size() == c.rows * c.cols && row.size() == c.cols && col.size() == c.rows, "communicator sizes");
    vf_check(full.rank() == g.rankFullCommunicator(p) && row.rank() == p.col() && col.rank() == p.row(), "ranks are those of the position");
    for (int r = 0; r < c.rows; ++r)
      for (int k = 0; k < c.cols; ++k) {
        const int fr = g.rankFullCommunicator(Index2D(r, k));
        vf_check(fr == r * c.cols + k, "full rank of a position");
        vf_check(sim_world_rank(MPI_Comm(full), fr) == world_of(c, r, k), "the full communicator holds the process of every position at its rank");
        if (r == p.row()) vf_check(sim_world_rank(MPI_Comm(row), k) == world_of(c, r, k), "the row communicator holds the processes of the row");
        if (k == p.col()) vf_check(sim_world_rank(MPI_Comm(col), r) == world_of(c, r, k), "the column communicator holds the processes of the column");
      }
    vf_check((int) g.num_pipelines() == c.pools, "pool size");
    rotation<CommunicatorType::Full>(c, [&] { return g.full_communicator_pipeline(); }, full, full.rank(), full.size(), p);
    rotation<CommunicatorType::Row>(c, [&] { return g.row_communicator_pipeline(); }, row, row.rank(), row.size(), p);
    rotation<CommunicatorType::Col>(c, [&] { return g.col_communicator_pipeline(); }, col, col.rank(), col.size(), p);
    vf_check(g.communicator_pipeline<Coord::Row>().communicator_type == CommunicatorType::Row, "pipeline of a coordinate");
    // values summed over a row and over a column come from exactly the processes of that row / column
    long v = c.val[me], sr = 0, sc = 0, er = 0, ec = 0;
    sync::allReduce(row, MPI_SUM, common::make_data(const_cast<const long*>(&v), 1), common::make_data(&sr, 1));
    sync::allReduce(col, MPI_SUM, common::make_data(const_cast<const long*>(&v), 1), common::make_data(&sc, 1));
    for (int k = 0; k < c.cols; ++k) er += c.val[world_of(c, p.row(), k)];
    for (int r = 0; r < c.rows; ++r) ec += c.val[world_of(c, r, p.col())];
    vf_check(sr == er && sc == ec, "sums over a row or column are over exactly its processes");
    g.wait_all_communicators();
    const MPI_Comm hrow = row;
    CommunicatorGrid h(std::move(g));
    vf_check(h.size() == Size2D(c.rows, c.cols) && h.rank() == p && MPI_Comm(h.rowCommunicator()) == hrow, "a moved grid is the same grid");
    vf_cover("in grid");
  }
}
extern "C" void c13_grid() {
  static Cfg c;
  c.n = (int) vf_pick("processes", 1, vf_param("n", 4));
  c.rows = (int) vf_pick("rows", 1, c.n);
  c.cols = (int) vf_pick("cols", 1, c.n / c.rows);
  c.ord = vf_pick("ordering", 0, 1) ? common::Ordering::RowMajor : common::Ordering::ColumnMajor;
  c.pools = (int) vf_pick("pool", 1, 2);
  vf_shard();
  for (int i = 0; i < c.n; ++i) c.val[i] = vf_i64("value", -1000000, 1000000);
  sim_world(c.n);
  mini::run_ranks(c.n, rank_main, &c);
  for (int i = 0; i < c.rows * c.cols; ++i)
    for (int j = 0; j < i; ++j) vf_check(c.pos[i] != c.pos[j], "every process has its own position");
  vf_check(sim_pending() == 0, "no communication is left over");
  vf_check(sim_live_comms() == 0, "all communicators of the grid are released");
}
