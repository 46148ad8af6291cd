// C13, any number of processes: what each process passes to MPI_Comm_split.
#include "vf.h"
#include <pika/mini.hpp>
#include <pika/mpi.hpp>
#include <dlaf/communication/communicator_grid.h>
#include "mock_mpi.h"
using namespace dlaf;
using namespace dlaf::comm;
extern "C" int mini_mpi_test(void*) { return 1; }
extern "C" int64_t mini_mpi_event(void*) { return 0; }
static int ncall, color[3], key[3], next_rank[3], next_size[3];
extern "C" int MPI_Comm_split(MPI_Comm, int c, int k, MPI_Comm* out) {
  vf_check(ncall < 3, "three splits");
  color[ncall] = c;
  key[ncall] = k;
  *out = c == MPI_UNDEFINED ? MPI_COMM_NULL : mock_new_comm(next_rank[ncall], next_size[ncall]);
  ++ncall;
  return 0;
}
extern "C" int MPI_Ibarrier(MPI_Comm, MPI_Request*) { return 0; }
struct Pos { bool in; int row, col, cf, cr, cc, kf, kr, kc, full; };
static Pos process(int w, int size, int rows, int cols, common::Ordering ord) {
  mock_world(w, size);
  ncall = 0;
  for (int i = 0; i < 3; ++i) { next_rank[i] = 0; next_size[i] = 1; }
  CommunicatorGrid g(Communicator(MPI_COMM_WORLD), rows, cols, ord, 1);
  vf_check(ncall == 3, "every process of the parent communicator takes part in the same splits");
  Pos p;
  p.in = g.size() != Size2D(0, 0);
  p.row = g.rank().row();
  p.col = g.rank().col();
  p.full = p.in ? g.rankFullCommunicator(g.rank()) : -1;
  p.cf = color[0]; p.kf = key[0];
  p.cr = color[1]; p.kr = key[1];
  p.cc = color[2]; p.kc = key[2];
  return p;
}
extern "C" void c13_split() {
  const bool rm = vf_pick("ordering", 0, 1);
  const int small = (int) vf_pick("short side", 1, vf_param("side", 5));
  const int la = (int) vf_pick("a modulo the short side", 0, small - 1), lb = (int) vf_pick("b modulo the short side", 0, small - 1);
  vf_shard();
  const int large = vf_i32("long side", 1, 1 << 20);
  const int rows = rm ? large : small, cols = rm ? small : large;
  const int size = vf_i32("processes", 1, 1 << 30);
  const int a = vf_i32("a over the short side", 0, (1 << 30) / small - 1) * small + la, b = vf_i32("b over the short side", 0, (1 << 30) / small - 1) * small + lb;
  vf_assume((long) rows * cols <= size);
  vf_assume(a < size && b < size && a < b);
  const auto ord = rm ? common::Ordering::RowMajor : common::Ordering::ColumnMajor;
  const Pos p = process(a, size, rows, cols, ord), q = process(b, size, rows, cols, ord);
  vf_check(p.in == (a < rows * cols) && q.in == (b < rows * cols), "the first rows*cols processes are in the grid");
  auto outside = [&](const Pos& x) { vf_check(x.cf == MPI_UNDEFINED && x.cr == MPI_UNDEFINED && x.cc == MPI_UNDEFINED, "a process outside the grid joins no communicator"); };
  auto inside = [&](const Pos& x, int w) {
    vf_check(x.row >= 0 && x.row < rows && x.col >= 0 && x.col < cols, "the position is in the grid");
    vf_check(rm ? x.row * (long) small + x.col == w : x.col * (long) small + x.row == w, "positions follow the ordering");
    vf_check(x.cf >= 0 && x.cr >= 0 && x.cc >= 0, "a process of the grid joins its communicators");
    vf_check(rm ? x.full == x.row * (long) small + x.col : true, "full rank of the position");
  };
  if (!p.in) { vf_cover("outside"); outside(p); } else inside(p, a);
  if (!q.in) { outside(q); vf_end(); } else inside(q, b);
  vf_cover("both inside");
  vf_check(p.row != q.row || p.col != q.col, "different processes have different positions");
  vf_check(p.cf == q.cf, "one full communicator");
  vf_check((p.cr == q.cr) == (p.row == q.row) && (p.cc == q.cc) == (p.col == q.col), "row and column communicators hold exactly the processes of one row or column");
  // rank order inside a communicator: by key, then by rank in the parent (a < b)
  const bool bf = p.row < q.row || (p.row == q.row && p.col < q.col);
  vf_check((p.kf <= q.kf) == bf, "full communicator in row-major order of the positions");
  if (p.row == q.row) vf_check((p.kr <= q.kr) == (p.col < q.col), "row communicator in column order");
  if (p.col == q.col) vf_check((p.kc <= q.kc) == (p.row < q.row), "column communicator in row order");
}
