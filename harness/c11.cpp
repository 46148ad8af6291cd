// C11: ownership of communicators and message datatypes over every bounded history of handle operations.
#include "vf.h"
#include "mock_mpi.h"
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/type_handler.h>
#include <dlaf/common/data_descriptor.h>
using dlaf::comm::Communicator;
namespace {
// model of a communicator handle: -1 moved from, 0 world, 1 null, >= 2 index of a mock communicator
struct Model {
  int h[2];
  bool managed[64];
};
int refs(const Model& m, int id) { return (m.h[0] == id) + (m.h[1] == id); }
void observe(const Model& m, Communicator* h) {
  for (int i = 0; i < 2; ++i) {
    if (m.h[i] < 0) continue;
    const int id = mock_comm_index(static_cast<MPI_Comm>(h[i]));
    vf_check(id == m.h[i], "a handle refers to its communicator");
    if (id != 1) {
      vf_check(mock_comm[id].live, "the communicator of a handle in use is live");
      vf_check(h[i].rank() == mock_comm[id].rank && h[i].size() == mock_comm[id].size, "rank and size of the handle");
    }
    vf_check(mock_comm_index(*&h[i]) == id, "address-of access");
  }
  for (int id = 2; id < mock_ncomm; ++id) {
    const int n = refs(m, id);
    if (m.managed[id]) {
      if (n) vf_check(mock_comm[id].live && mock_comm[id].frees == 0, "a managed communicator lives while it has users");
      else vf_check(!mock_comm[id].live && mock_comm[id].frees == 1, "a managed communicator is released exactly once when its last user is gone");
    }
    else vf_check(mock_comm[id].live && mock_comm[id].frees == 0, "an unmanaged communicator is never released");
  }
}
}
extern "C" {
void c11_communicator() {
  const int len = vf_param("len", 3);
  mock_world((int) vf_i32("rank", 0, 3), 4);
  Model m;
  for (bool& b : m.managed) b = false;
  {
    Communicator h[2];
    m.h[0] = m.h[1] = 1;
    for (int s = 0; s < len; ++s) {
      const int op = (int) vf_pick("op", 0, 8);
      const int i = (int) vf_pick("i", 0, 1);
      if (s == 0) vf_shard();
      const int j = 1 - i;
      const MPI_Comm src = m.h[j] >= 0 ? static_cast<MPI_Comm>(h[j]) : MPI_COMM_NULL;
      (void) src;
      switch (op) {
        case 0:  // clone of the other one
          if (m.h[j] < 0 || m.h[j] == 1) vf_end();
          h[i] = h[j].clone(); m.h[i] = mock_ncomm - 1; m.managed[m.h[i]] = true; break;
        case 1:  // clone of itself
          if (m.h[i] < 0 || m.h[i] == 1) vf_end();
          h[i] = h[i].clone(); m.h[i] = mock_ncomm - 1; m.managed[m.h[i]] = true; break;
        case 2:
          if (m.h[j] < 0) vf_end();
          h[i] = h[j]; m.h[i] = m.h[j]; break;
        case 3:
          if (m.h[j] < 0) vf_end();
          h[i] = std::move(h[j]); m.h[i] = m.h[j];
          // a moved-from handle keeps no user: it is only assigned to or destroyed afterwards
          m.h[j] = -1; break;
        case 4: h[i] = Communicator(); m.h[i] = 1; break;
        case 5: h[i] = Communicator(MPI_COMM_WORLD); m.h[i] = 0; break;
        case 6: { MPI_Comm c = mock_new_comm(1, 3); h[i] = Communicator(c); m.h[i] = mock_ncomm - 1; break; }
        case 7: { MPI_Comm c = mock_new_comm(2, 5); h[i] = dlaf::comm::make_communicator_managed(c); m.h[i] = mock_ncomm - 1; m.managed[m.h[i]] = true; break; }
        case 8: {  // temporary copies
          if (m.h[i] < 0) vf_end();
          Communicator t(h[i]);
          Communicator u(std::move(t));
          vf_check(mock_comm_index(static_cast<MPI_Comm>(u)) == m.h[i], "copy and move construction keep the communicator");
          break;
        }
      }
      vf_cover("history");
      observe(m, h);
    }
  }
  m.h[0] = m.h[1] = -2;
  for (int id = 2; id < mock_ncomm; ++id) {
    if (m.managed[id]) vf_check(!mock_comm[id].live && mock_comm[id].frees == 1, "every managed communicator is released exactly once");
    else vf_check(mock_comm[id].live && mock_comm[id].frees == 0, "an unmanaged communicator is never released (end)");
  }
}
void c11_not_manageable() {
  mock_world(0, 2);
  vf_allow_abort(1);
  if (vf_bool("world")) { vf_cover("managed world"); Communicator c = dlaf::comm::make_communicator_managed(MPI_COMM_WORLD); }
  else { vf_cover("managed null"); Communicator c = dlaf::comm::make_communicator_managed(MPI_COMM_NULL); }
  vf_fail("a predefined communicator cannot be managed");
}
void c11_datatype() {
  typedef dlaf::comm::internal::type_handler<long> TH;
  const int len = vf_param("len", 4);
  mock_world(0, 2);
  int first = 0;
  {
    TH h[2];
    int m[2] = {0, 0};   // index of the datatype (0: none)
    for (int s = 0; s < len; ++s) {
      const int op = (int) vf_pick("op", 0, 5), i = (int) vf_pick("i", 0, 1), j = 1 - i;
      if (s == 0) vf_shard();
      switch (op) {
        case 0: { TH t(vf_i64("nblocks", 0, 1000), vf_i64("block", 0, 1000), vf_i64("stride", 0, 1000)); const int id = mock_ntype - 1; if (!first) first = id; h[i] = std::move(t); m[i] = id; break; }
        case 1: h[i] = std::move(h[j]); m[i] = m[j]; m[j] = -1; break;
        case 2: h[i] = TH(); m[i] = 0; break;
        case 3: { TH t(std::move(h[i])); if (m[i] >= 0) vf_check(mock_type_index(static_cast<MPI_Datatype>(t)) == m[i], "move construction keeps the datatype"); h[i] = std::move(t); break; }
        case 4: std::swap(h[0], h[1]); { int x = m[0]; m[0] = m[1]; m[1] = x; } break;
        case 5: { TH& a = h[i]; a = std::move(h[i]); break; }   // self move: keeps the value or becomes empty; nothing may leak
      }
      vf_cover("history");
      int used[2];
      for (int k = 0; k < 2; ++k) {
        const int id = mock_type_index(static_cast<MPI_Datatype>(h[k]));
        used[k] = id;
        vf_check(id == 0 || (id > 0 && mock_type[id].live && mock_type[id].committed), "a handle refers to no datatype or to a live one");
        vf_check(static_cast<bool>(h[k]) == (id != 0), "a handle is true exactly when it has a datatype");
        if (m[k] >= 0 && op != 5) vf_check(id == m[k], "a handle refers to its datatype");
        m[k] = id;
      }
      vf_check(used[0] == 0 || used[0] != used[1], "no two handles own the same datatype");
      if (first) for (int id = first; id < mock_ntype; ++id) vf_check(!mock_type[id].live || id == used[0] || id == used[1], "a datatype without a user has been released");
    }
  }
  vf_check(mock_live_types() == 0, "every datatype is released in the end");
}
void c11_message() {
  mock_world(0, 2);
  static long mem[64];
  typedef dlaf::common::DataDescriptor<long> D;
  {
    auto mk = [&](int k) { return k == 0 ? D(mem, vf_i64("n", 0, 60)) : D(mem, 3, 2, vf_i64("stride", 3, 20)); };
    auto a = dlaf::comm::make_message(mk((int) vf_pick("first", 0, 1)));
    auto b = dlaf::comm::make_message(mk((int) vf_pick("second", 0, 1)));
    const MPI_Datatype ta = a.mpi_type(), tb = b.mpi_type();
    switch (vf_pick("op", 0, 2)) {
      case 0: b = std::move(a); vf_check(b.mpi_type() == ta, "move assignment moves the datatype"); break;
      case 1: { auto c(std::move(a)); vf_check(c.mpi_type() == ta, "move construction moves the datatype"); vf_check(b.mpi_type() == tb, "other message unaffected"); break; }
      case 2: { std::swap(a, b); vf_check(a.mpi_type() == tb && b.mpi_type() == ta, "swap exchanges the datatypes"); break; }
    }
    vf_cover("message");
    int used = 0;
    for (int id = 1; id < mock_ntype; ++id) used += mock_type[id].live && !mock_type[id].predefined;
    vf_check(used <= 2, "at most one live datatype per message");
    const int ib = mock_type_index(b.mpi_type());
    vf_check(ib > 0 && mock_type[ib].live, "the message in use has a live datatype");
  }
  vf_check(mock_live_types() == 0, "every datatype is released in the end");
}
}
