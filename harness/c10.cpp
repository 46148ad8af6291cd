// C10: the (pointer, count, datatype) triple of a message describes exactly the elements of its data.
#include "vf.h"
#include "mock_mpi.h"
#include <climits>
#include <complex>
#include <string_view>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
static const int64_t BS[] = {1, 2, 3, 7, 64, 1000, 65537, 2147483647, 2147483648, 4, 5, 8, 16, 31, 100, 4096, 1 << 20, (1 << 30) + 1, (1ll << 31) + 5};
static const int64_t GAP[] = {0, 1, 5, 1 << 20, 2147483647, 2, 3, 63, 1000};
namespace {
const char* mock_kind(int t) { return mock_kind_of(t); }
template <class T> void elementary(const char* kind) {
  const int t = mock_type_index(dlaf::comm::mpi_datatype<T>::type), tc = mock_type_index(dlaf::comm::mpi_datatype<const T>::type);
  vf_check(t > 0 && mock_type[t].predefined, "a predefined datatype");
  vf_check(t == tc, "same datatype for const elements");
  vf_check(mock_type[t].esize == (int) sizeof(T), "size of the elementary datatype");
  vf_check(std::string_view(mock_kind(t)) == kind, "kind of the elementary datatype");
  static T mem[4] = {};
  const int64_t n = vf_i64("n", 0, INT_MAX);
  auto m = dlaf::comm::make_message(dlaf::common::DataDescriptor<T>(mem, n));
  vf_check(mock_type_index(m.mpi_type()) == t && m.count() == n && m.data() == mem, "contiguous message");
  auto mc = dlaf::comm::make_message(dlaf::common::DataDescriptor<const T>(mem, n));
  vf_check(mock_type_index(mc.mpi_type()) == t && mc.count() == n && mc.data() == mem, "contiguous message of const data");
  auto mv = dlaf::comm::make_message(dlaf::common::DataDescriptor<const T>(mem, 3, 2, 5));
  const int v = mock_type_index(mv.mpi_type());
  vf_check(v > 0 && mock_type[v].kind == 1 && mock_type[v].base == t, "derived datatype of the element type");
  vf_cover("elementary");
}
}
extern "C" {
void c10_elementary() {
  mock_world(0, 2);
  switch (vf_pick("type", 0, 14)) {
    case 0: elementary<char>("i"); break;
    case 1: elementary<short>("i"); break;
    case 2: elementary<int>("i"); break;
    case 3: elementary<long>("i"); break;
    case 4: elementary<long long>("i"); break;
    case 5: elementary<unsigned char>("u"); break;
    case 6: elementary<unsigned short>("u"); break;
    case 7: elementary<unsigned int>("u"); break;
    case 8: elementary<unsigned long>("u"); break;
    case 9: elementary<unsigned long long>("u"); break;
    case 10: elementary<float>("f"); break;
    case 11: elementary<double>("f"); break;
    case 12: elementary<bool>("b"); break;
    case 13: elementary<std::complex<float>>("c"); break;
    case 14: elementary<std::complex<double>>("c"); break;
  }
}
// every strided layout: number of blocks symbolic, block size and gap from tables
void c10_typemap() {
  mock_world(0, 2);
  const int64_t bs = BS[vf_pick("bs", 0, vf_param("n_bs", 9) - 1)];
  const int64_t st = bs + GAP[vf_pick("gap", 0, vf_param("n_gap", 5) - 1)];
  vf_shard();
  const int64_t nb = vf_i64("nblocks", 1, (1ll << 31) + 1000);
  static long mem[2];
  // descriptions MPI cannot express (a count beyond int) must stop the program
  const bool contiguous = nb == 1 || st == bs;
  const bool fits = contiguous ? nb * bs <= INT_MAX : nb <= INT_MAX && bs <= INT_MAX && st <= INT_MAX;
  vf_allow_abort(!fits);
  auto m = dlaf::comm::make_message(dlaf::common::DataDescriptor<long>(mem, nb, bs, nb == 1 && vf_bool("stride 0") ? 0 : st));
  const int count = m.count();
  const int t = mock_type_index(m.mpi_type());
  if (!fits) { vf_cover("too large"); vf_fail("a message MPI cannot describe is stopped"); }
  vf_check(m.data() == mem, "message starts at the data");
  vf_check(t > 0 && mock_type[t].live && mock_type[t].committed, "usable datatype");
  const MockType& y = mock_type[t];
  vf_check(mock_type[y.kind == 0 ? t : y.base].esize == 8 && std::string_view(mock_kind(y.kind == 0 ? t : y.base)) == "i", "element datatype");
  // element (i, j) of the data is element i * bs + j of the message
  const int64_t i = vf_i64("i", 0, 1ll << 32), j = vf_i64("j", 0, 1ll << 32);
  vf_assume(i < nb && j < bs);
  if (y.kind == 0) {
    vf_cover("elementary");
    vf_check(count == nb * bs, "number of elements");
    vf_check(i * bs + j == i * st + j || i == 0, "elements of a contiguous message are adjacent");
  }
  else {
    vf_cover("derived");
    vf_check(count == 1 || y.count * y.bl == 0, "one item of the derived datatype");
    if (y.bl == bs) {
      vf_check(y.count == nb, "number of elements (derived)");
      vf_check(i * y.stride + j == i * st + j, "typemap");
    }
    else {
      // a different but equivalent description
      const int64_t k = i * bs + j, bl = vf_concretize(y.bl);
      vf_check(y.count * bl == nb * bs, "number of elements (derived)");
      vf_check(k / bl * y.stride + k % bl == i * st + j, "typemap");
    }
  }
}
}
