// C12: the synchronous communication wrappers, seen from one rank; the other ranks' contribution is symbolic.
#include "vf.h"
#include "mock_mpi.h"
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/reduce.h>
#include <dlaf/common/data_descriptor.h>
using namespace dlaf::common;
using dlaf::comm::Communicator;
namespace {
constexpr int NM = 64;
long IN[NM], OUT[NM], in0[NM], out0[NM];
struct Shape { int64_t nb, bs, st; };
Shape pick_shape(const char* a, const char* b, const char* c, int64_t n, int64_t cnt) {
  Shape s;
  s.nb = vf_pick(a, 1, n);
  s.bs = vf_pick(b, 1, n);
  if (s.nb * s.bs > n || (cnt && s.nb * s.bs != cnt)) vf_end();
  const int64_t g = vf_pick(c, 0, 1) * 2;
  if (s.nb == 1 && g != 0) vf_end();
  s.st = s.bs + g;
  return s;
}
int64_t at(const Shape& s, int64_t k) { return k / s.bs * s.st + k % s.bs; }
DataDescriptor<long> desc(long* m, const Shape& s) { return DataDescriptor<long>(m, s.nb, s.bs, s.st); }
DataDescriptor<const long> cdesc(const long* m, const Shape& s) { return DataDescriptor<const long>(m, s.nb, s.bs, s.st); }
void setup() {
  for (int i = 0; i < NM; ++i) { in0[i] = IN[i] = i < 24 ? vf_i64("in", -1000000, 1000000) : i; out0[i] = OUT[i] = i < 24 ? vf_i64("out", -1000000, 1000000) : -i; }
  for (int i = 0; i < 16; ++i) mock_wire[i] = vf_i64("wire", -1000000, 1000000);
}
void unchanged(const long* m, const long* m0, const char* msg) {
  bool ok = true;
  for (int i = 0; i < NM; ++i) ok &= m[i] == m0[i];
  vf_check(ok, msg);
}
void unchanged_except(const long* m, const long* m0, int64_t off, const Shape& s, const char* msg) {
  bool ok = true;
  for (int i = 0; i < NM; ++i) {
    bool inside = false;
    for (int64_t k = 0; k < s.nb * s.bs; ++k) inside |= i == off + at(s, k);
    if (!inside) ok &= m[i] == m0[i];
  }
  vf_check(ok, msg);
}
long combine(int op, long a, long b) { return op == 0 ? a + b : op == 1 ? (a > b ? a : b) : (a < b ? a : b); }
MPI_Op mpi_op(int op) { return op == 0 ? MPI_SUM : op == 1 ? MPI_MAX : MPI_MIN; }
int op_id(int op) { return op + 1; }
void sent_is(const long* m0, int64_t off, const Shape& s) {
  const int64_t n = s.nb * s.bs;
  vf_check(mock_nsent == n, "number of elements given to MPI");
  bool ok = true;
  for (int64_t k = 0; k < n && k < mock_nsent; ++k) ok &= mock_sent[k] == m0[off + at(s, k)];
  vf_check(ok, "elements given to MPI, in order");
}
struct World { int rank, size; MPI_Comm c; };
World world(int minsize) {
  World w;
  w.size = (int) vf_i32("size", minsize, 1 << 30);
  w.rank = (int) vf_i32("rank", 0, 1 << 30);
  vf_assume(w.rank < w.size);
  mock_world(0, 1);
  w.c = mock_new_comm(w.rank, w.size);
  return w;
}
}
extern "C" {
void c12_p2p() {
  const int64_t n = vf_param("n", 6);
  const Shape s = pick_shape("nb", "bs", "gap", n, 0);
  vf_shard();
  const World w = world(1);
  setup();
  Communicator c(w.c);
  const int peer = (int) vf_i32("peer", 0, 1 << 30);
  vf_assume(peer < w.size);
  int tag = -1;
  if (vf_pick("send", 0, 1)) {
    if (vf_pick("const", 0, 1)) dlaf::comm::sync::send_to(peer, c, cdesc(IN + 2, s));
    else dlaf::comm::sync::send_to(peer, c, desc(IN + 2, s));
    vf_cover("send");
    vf_check(mock_ncall == 1 && mock_call[0].fn == MOCK_SEND && mock_call[0].peer == peer && mock_call[0].comm == 2, "one send to the receiver");
    sent_is(in0, 2, s);
    unchanged(IN, in0, "sending changes nothing");
    tag = mock_call[0].tag;
  }
  else {
    dlaf::comm::sync::receive_from(peer, c, desc(OUT + 3, s));
    vf_cover("receive");
    vf_check(mock_ncall == 1 && mock_call[0].fn == MOCK_RECV && mock_call[0].peer == peer && mock_call[0].comm == 2, "one receive from the sender");
    bool ok = true;
    for (int64_t k = 0; k < s.nb * s.bs; ++k) ok &= OUT[3 + at(s, k)] == mock_wire[k];
    vf_check(ok, "received elements are placed in order");
    unchanged_except(OUT, out0, 3, s, "nothing but the described elements is written");
    tag = mock_call[0].tag;
    // the two sides of a transfer agree on the tag
    mock_ncall = 0;
    dlaf::comm::sync::send_to(peer, c, cdesc(IN, s));
    vf_check(mock_call[0].tag == tag, "send and receive use the same tag");
  }
}
void c12_reduce() {
  const int64_t n = vf_param("n", 4);
  const Shape s = pick_shape("s_nb", "s_bs", "s_gap", n, 0), d = pick_shape("d_nb", "d_bs", "d_gap", n, s.nb * s.bs);
  const int64_t cnt = s.nb * s.bs;
  const int form = (int) vf_pick("form", 0, 1), op = (int) vf_pick("op", 0, 2);   // form 0: reduce, 1: all-reduce
  vf_shard();
  const World w = world(1);
  setup();
  Communicator c(w.c);
  int root = -1;
  if (form == 0) {
    root = (int) vf_i32("root", 0, 1 << 30);
    vf_assume(root < w.size);
    dlaf::comm::sync::reduce(root, c, mpi_op(op), cdesc(IN + 1, s), desc(OUT + 2, d));
  }
  else dlaf::comm::sync::allReduce(c, mpi_op(op), cdesc(IN + 1, s), desc(OUT + 2, d));
  const bool gets = form == 1 || root == w.rank;
  unchanged(IN, in0, "the input is unchanged");
  if (w.size == 1) {
    vf_cover("single rank");
    bool ok = true;
    for (int64_t k = 0; k < cnt; ++k) ok &= OUT[2 + at(d, k)] == in0[1 + at(s, k)];
    vf_check(ok, "reduction over one rank copies the input");
  }
  else {
    vf_check(mock_ncall == 1 && mock_call[0].fn == (form == 0 ? MOCK_REDUCE : MOCK_ALLREDUCE) && mock_call[0].comm == 2, "one collective on the communicator");
    vf_check(mock_call[0].op == op_id(op) && mock_call[0].peer == root, "operation and root");
    sent_is(in0, 1, s);
    if (gets) {
      vf_cover("result");
      bool ok = true;
      for (int64_t k = 0; k < cnt; ++k) ok &= OUT[2 + at(d, k)] == combine(op, in0[1 + at(s, k)], mock_wire[k]);
      vf_check(ok, "element k of the output is the reduction of elements k");
    }
    else { vf_cover("no result"); unchanged(OUT, out0, "only the root receives the result"); }
  }
  unchanged_except(OUT, out0, 2, d, "nothing but the described output is written");
}
void c12_reduce_in_place() {
  const int64_t n = vf_param("n", 6);
  const Shape s = pick_shape("nb", "bs", "gap", n, 0);
  const int64_t cnt = s.nb * s.bs;
  const int form = (int) vf_pick("form", 0, 1), op = (int) vf_pick("op", 0, 2);
  vf_shard();
  const World w = world(1);
  setup();
  Communicator c(w.c);
  int root = -1;
  if (form == 0) {
    root = (int) vf_i32("root", 0, 1 << 30);
    vf_assume(root < w.size);
    dlaf::comm::sync::reduceInPlace(root, c, mpi_op(op), desc(IN + 1, s));
  }
  else dlaf::comm::sync::allReduceInPlace(c, mpi_op(op), desc(IN + 1, s));
  const bool gets = form == 1 || root == w.rank;
  if (w.size == 1) { vf_cover("single rank"); if (mock_ncall == 0) unchanged(IN, in0, "reduction over one rank is the identity"); }
  if (w.size > 1) {
    vf_check(mock_ncall == 1 && mock_call[0].fn == (form == 0 ? MOCK_REDUCE : MOCK_ALLREDUCE) && mock_call[0].comm == 2, "one collective on the communicator");
    vf_check(mock_call[0].op == op_id(op) && mock_call[0].peer == root, "operation and root");
    sent_is(in0, 1, s);
    if (gets) {
      vf_cover("result");
      bool ok = true;
      for (int64_t k = 0; k < cnt; ++k) ok &= IN[1 + at(s, k)] == combine(op, in0[1 + at(s, k)], mock_wire[k]);
      vf_check(ok, "element k is the reduction of elements k");
    }
    else { vf_cover("no result"); unchanged(IN, in0, "the input of a non-root rank is unchanged"); }
  }
  unchanged_except(IN, in0, 1, s, "nothing but the described elements is written");
}
// all members of a reduction hand MPI the same number of elements of the same type whatever their layout
void c12_matching() {
  const int64_t n = vf_param("n", 6);
  const Shape s = pick_shape("s_nb", "s_bs", "s_gap", n, 0), d = pick_shape("d_nb", "d_bs", "d_gap", n, s.nb * s.bs);
  vf_shard();
  const World w = world(2);
  setup();
  Communicator c(w.c);
  Communicator c2(mock_new_comm((int) 0, w.size));
  vf_assume(w.rank != 0);
  dlaf::comm::sync::reduce(0, c, MPI_SUM, cdesc(IN, s), desc(OUT, d));
  dlaf::comm::sync::reduceInPlace(0, c2, MPI_SUM, desc(OUT, d));
  vf_cover("matching");
  vf_check(mock_ncall == 2, "one call per rank");
  const MockCall &a = mock_call[0], &b = mock_call[1];
  vf_check(a.peer == b.peer && a.op == b.op && a.count * mock_elements(a.type) == b.count * mock_elements(b.type) && mock_type[a.type].base == mock_type[b.type].base, "matching arguments on root and non-root");
}
void c12_bad_root() {
  const World w = world(1);
  setup();
  Communicator c(w.c);
  const int root = (int) vf_i32("root", INT32_MIN, INT32_MAX);
  vf_assume(root < 0 || root >= w.size);
  vf_allow_abort(1);
  vf_cover("bad root");
  const Shape s{1, 2, 2};
  if (vf_pick("in place", 0, 1)) dlaf::comm::sync::reduceInPlace(root, c, MPI_SUM, desc(IN, s));
  else dlaf::comm::sync::reduce(root, c, MPI_SUM, cdesc(IN, s), desc(OUT, s));
  vf_fail("a root outside the communicator is stopped");
}
}
