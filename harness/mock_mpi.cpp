// See mock_mpi.h.  Deliberately does not include mpi.h: it defines the predefined handle objects of Open MPI.
#include "vf.h"
#include <cstdint>
typedef char Obj[64];
extern "C" {
// kinds: i signed, u unsigned, f floating, b bool, c complex
#define TYPES(X) \
  X(ompi_mpi_char, 1, "i") X(ompi_mpi_signed_char, 1, "i") X(ompi_mpi_short, 2, "i") X(ompi_mpi_int, 4, "i") X(ompi_mpi_long, 8, "i") X(ompi_mpi_long_long_int, 8, "i") \
  X(ompi_mpi_unsigned_char, 1, "u") X(ompi_mpi_unsigned_short, 2, "u") X(ompi_mpi_unsigned, 4, "u") X(ompi_mpi_unsigned_long, 8, "u") X(ompi_mpi_unsigned_long_long, 8, "u") \
  X(ompi_mpi_float, 4, "f") X(ompi_mpi_double, 8, "f") X(ompi_mpi_long_double, 16, "f") X(ompi_mpi_cxx_bool, 1, "b") X(ompi_mpi_c_bool, 1, "b") X(ompi_mpi_byte, 1, "x") \
  X(ompi_mpi_c_float_complex, 8, "c") X(ompi_mpi_c_double_complex, 16, "c") X(ompi_mpi_c_complex, 8, "c") X(ompi_mpi_cxx_cplex, 8, "c") X(ompi_mpi_cxx_dblcplex, 16, "c") X(ompi_mpi_cxx_ldblcplex, 32, "c") \
  X(ompi_mpi_int8_t, 1, "i") X(ompi_mpi_int16_t, 2, "i") X(ompi_mpi_int32_t, 4, "i") X(ompi_mpi_int64_t, 8, "i") X(ompi_mpi_uint8_t, 1, "u") X(ompi_mpi_uint16_t, 2, "u") X(ompi_mpi_uint32_t, 4, "u") X(ompi_mpi_uint64_t, 8, "u") \
  X(ompi_mpi_2int, 8, "p") X(ompi_mpi_float_int, 8, "p") X(ompi_mpi_wchar, 4, "w") X(ompi_mpi_packed, 1, "x") X(ompi_mpi_cplex, 8, "c") X(ompi_mpi_dblcplex, 16, "c")
#define OPS(X) X(ompi_mpi_op_sum, 1) X(ompi_mpi_op_max, 2) X(ompi_mpi_op_min, 3) X(ompi_mpi_op_prod, 4) X(ompi_mpi_op_land, 5) X(ompi_mpi_op_lor, 6) X(ompi_mpi_op_band, 7) X(ompi_mpi_op_bor, 8)
Obj ompi_mpi_comm_world, ompi_mpi_comm_null, ompi_mpi_comm_self, ompi_mpi_datatype_null, ompi_request_null, ompi_mpi_op_null, ompi_mpi_group_null, ompi_mpi_info_null;
#define X(n, s, k) Obj n;
TYPES(X)
#undef X
#define X(n, i) Obj n;
OPS(X)
#undef X
struct MockType { int kind; int esize; int live; int committed; int predefined; int64_t count, bl, stride; int base; };
struct MockComm { int live; int rank, size; int frees; };
struct MockCall { int fn; const void* in; void* out; int count; int type; int op; int peer; int tag; int comm; };
MockComm mock_comm[64];
int mock_ncomm = 0;
MockType mock_type[160];
int mock_ntype = 0;
MockCall mock_call[64];
int mock_ncall = 0;
long mock_wire[64], mock_sent[64];
int mock_nsent = 0;
static char comm_obj[64][8], type_obj[160][8];
}
static int nfirst = 0;   // first derived type
static const char* kinds[160];
static void* predef[160];
static void init_types() {
  if (mock_ntype) return;
  mock_type[0] = {0, 0, 0, 0, 1, 0, 0, 0, 0};
  predef[0] = ompi_mpi_datatype_null;
  mock_ntype = 1;
#define X(n, s, k) predef[mock_ntype] = n; kinds[mock_ntype] = k; mock_type[mock_ntype] = {0, s, 1, 1, 1, 1, 1, 0, mock_ntype}; mock_ntype++;
  TYPES(X)
#undef X
  nfirst = mock_ntype;
}
const char* mock_kind_of(int t) { return t > 0 && t < nfirst ? kinds[t] : "?"; }
extern "C" {
void mock_world(int rank, int size) {
  init_types();
  mock_ncomm = 2;
  mock_comm[0] = {1, rank, size, 0};
  mock_comm[1] = {0, -1, -1, 0};
}
int mock_comm_index(void* c) {
  if (c == (void*) ompi_mpi_comm_world) return 0;
  if (c == (void*) ompi_mpi_comm_null) return 1;
  for (int i = 2; i < mock_ncomm; ++i) if (c == (void*) comm_obj[i]) return i;
  return -1;
}
void* mock_new_comm(int rank, int size) {
  if (mock_ncomm == 0) mock_world(0, 1);
  int i = mock_ncomm++;
  mock_comm[i] = {1, rank, size, 0};
  return comm_obj[i];
}
int mock_type_index(void* t) {
  init_types();
  for (int i = 0; i < nfirst; ++i) if (t == predef[i]) return i;
  for (int i = nfirst; i < mock_ntype; ++i) if (t == (void*) type_obj[i]) return i;
  return -1;
}
int mock_live_types() { int n = 0; init_types(); for (int i = nfirst; i < mock_ntype; ++i) n += mock_type[i].live; return n; }
int64_t mock_elements(int t) { return mock_type[t].kind == 0 ? 1 : mock_type[t].count * mock_type[t].bl; }
int64_t mock_offset(int t, int64_t k) {
  MockType& m = mock_type[t];
  if (m.kind == 0) return k;
  const int64_t per = m.count * m.bl, item = k / per, r = k % per;
  // extent of a vector type: (count - 1) * stride + bl
  return item * ((m.count - 1) * m.stride + m.bl) + r / m.bl * m.stride + r % m.bl;
}
static int live_comm(void* c) {
  int i = mock_comm_index(c);
  vf_check(i >= 0 && mock_comm[i].live, "MPI is given a live communicator");
  return i;
}
static int usable_type(void* t) {
  int i = mock_type_index(t);
  vf_check(i > 0 && mock_type[i].live && mock_type[i].committed, "MPI is given a live, committed datatype");
  return i;
}
int MPI_Comm_size(void* c, int* n) { *n = mock_comm[live_comm(c)].size; return 0; }
int MPI_Comm_rank(void* c, int* n) { *n = mock_comm[live_comm(c)].rank; return 0; }
int MPI_Comm_dup(void* c, void** n) { int i = live_comm(c); *n = mock_new_comm(mock_comm[i].rank, mock_comm[i].size); return 0; }
int MPI_Comm_free(void** c) {
  int i = mock_comm_index(*c);
  vf_check(i != 0 && i != 1, "a predefined communicator is never released");
  vf_check(i >= 2 && mock_comm[i].live, "a communicator is released at most once");
  mock_comm[i].live = 0;
  mock_comm[i].frees++;
  *c = ompi_mpi_comm_null;
  return 0;
}
static int new_type(int64_t count, int64_t bl, int64_t stride, void* old, void** n) {
  int o = mock_type_index(old);
  vf_check(o > 0 && mock_type[o].kind == 0, "derived type of an elementary type");
  int i = mock_ntype++;
  mock_type[i] = {1, mock_type[o].esize, 1, 0, 0, count, bl, stride, o};
  *n = type_obj[i];
  return 0;
}
int MPI_Type_vector(int count, int bl, int stride, void* old, void** n) {
  vf_check(count >= 0 && bl >= 0, "datatype counts are not negative");
  return new_type(count, bl, stride, old, n);
}
int MPI_Type_contiguous(int count, void* old, void** n) { return new_type(1, count, count, old, n); }
int MPI_Type_create_hvector(int count, int bl, long stride, void* old, void** n) {
  int o = mock_type_index(old);
  vf_check(o > 0 && stride % mock_type[o].esize == 0, "hvector stride");
  return new_type(count, bl, stride / mock_type[o].esize, old, n);
}
int MPI_Type_commit(void** t) {
  int i = mock_type_index(*t);
  vf_check(i > 0 && mock_type[i].live, "a live datatype is committed");
  mock_type[i].committed = 1;
  return 0;
}
int MPI_Type_free(void** t) {
  int i = mock_type_index(*t);
  vf_check(i != 0 && !(i > 0 && mock_type[i].predefined), "a predefined datatype is never released");
  vf_check(i > 0 && mock_type[i].live, "a datatype is released at most once");
  mock_type[i].live = 0;
  *t = ompi_mpi_datatype_null;
  return 0;
}
static int op_index(void* op) {
  int r = 0;
#define X(n, i) if (op == (void*) n) r = i;
  OPS(X)
#undef X
  vf_check(r > 0, "MPI is given a valid reduction operation");
  return r;
}
static void common_checks(int count, int comm) {
  vf_check(count >= 0, "count is not negative");
  vf_check(mock_comm[comm].live, "live communicator");
}
static int64_t nel(int count, int t) { return (int64_t) count * mock_elements(t); }
static void no_alias(const void* a, const void* b, int count, int t) {
  // elementary types only: contiguous areas
  int64_t n = nel(count, t) * mock_type[t].esize;
  if (n == 0) return;
  const char *x = (const char*) a, *y = (const char*) b;
  vf_check(x != y, "send and receive buffers do not alias");
  bool apart = true;
  for (int64_t i = 1; i < n; ++i) apart &= x + i != y && y + i != x;
  vf_check(apart, "send and receive buffers do not overlap");
}
#define NOTE(...) mock_call[mock_ncall++] = {__VA_ARGS__}
int MPI_Send(const void* b, int count, void* ty, int dest, int tag, void* comm) {
  int c = live_comm(comm), t = usable_type(ty);
  common_checks(count, c);
  vf_check(dest >= 0 && dest < mock_comm[c].size, "destination is a rank of the communicator");
  for (int64_t k = 0; k < nel(count, t); ++k) mock_sent[mock_nsent++] = ((const long*) b)[mock_offset(t, k)];
  NOTE(1, b, nullptr, count, t, 0, dest, tag, c);
  return 0;
}
int MPI_Recv(void* b, int count, void* ty, int src, int tag, void* comm, void*) {
  int c = live_comm(comm), t = usable_type(ty);
  common_checks(count, c);
  vf_check(src >= 0 && src < mock_comm[c].size, "source is a rank of the communicator");
  for (int64_t k = 0; k < nel(count, t); ++k) ((long*) b)[mock_offset(t, k)] = mock_wire[k];
  NOTE(2, nullptr, b, count, t, 0, src, tag, c);
  return 0;
}
int MPI_Bcast(void* b, int count, void* ty, int root, void* comm) {
  int c = live_comm(comm), t = usable_type(ty);
  common_checks(count, c);
  vf_check(root >= 0 && root < mock_comm[c].size, "root is a rank of the communicator");
  for (int64_t k = 0; k < nel(count, t); ++k) {
    long& e = ((long*) b)[mock_offset(t, k)];
    if (root == mock_comm[c].rank) mock_sent[mock_nsent++] = e;
    else e = mock_wire[k];
  }
  NOTE(5, b, b, count, t, 0, root, 0, c);
  return 0;
}
static long apply(int op, long a, long b) {
  switch (op) {
    case 1: return a + b;
    case 2: return a > b ? a : b;
    case 3: return a < b ? a : b;
    default: vf_fail("reduction operation of the mock"); return 0;
  }
}
static void contribute(const void* in, int count, int t) {
  for (int64_t k = 0; k < nel(count, t); ++k) mock_sent[mock_nsent++] = ((const long*) in)[mock_offset(t, k)];
}
int MPI_Reduce(const void* in, void* out, int count, void* ty, void* op, int root, void* comm) {
  int c = live_comm(comm), t = usable_type(ty), o = op_index(op);
  common_checks(count, c);
  vf_check(mock_type[t].kind == 0, "predefined reductions need predefined types");
  vf_check(root >= 0 && root < mock_comm[c].size, "root is a rank of the communicator");
  const bool inplace = in == (void*) 1, isroot = root == mock_comm[c].rank;
  vf_check(!inplace || isroot, "MPI_IN_PLACE only at the root");
  if (isroot && !inplace) no_alias(in, out, count, t);
  contribute(inplace ? out : in, count, t);
  if (isroot) for (int64_t k = 0; k < nel(count, t); ++k) ((long*) out)[k] = apply(o, mock_sent[mock_nsent - nel(count, t) + k], mock_wire[k]);
  NOTE(3, in, out, count, t, o, root, 0, c);
  return 0;
}
int MPI_Allreduce(const void* in, void* out, int count, void* ty, void* op, void* comm) {
  int c = live_comm(comm), t = usable_type(ty), o = op_index(op);
  common_checks(count, c);
  vf_check(mock_type[t].kind == 0, "predefined reductions need predefined types");
  const bool inplace = in == (void*) 1;
  if (!inplace) no_alias(in, out, count, t);
  contribute(inplace ? out : in, count, t);
  for (int64_t k = 0; k < nel(count, t); ++k) ((long*) out)[k] = apply(o, mock_sent[mock_nsent - nel(count, t) + k], mock_wire[k]);
  NOTE(4, in, out, count, t, o, -1, 0, c);
  return 0;
}
int MPI_Error_string(int, char* s, int* n) { s[0] = 0; *n = 0; return 0; }
int MPI_Abort(void*, int) { vf_fail("MPI_Abort called"); return 0; }
}
