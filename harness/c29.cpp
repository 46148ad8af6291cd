// C29: precedence of the configuration sources (command line, environment, user configuration, default).
#include "vf.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <pika/mini.hpp>
#include <dlaf/init.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/tune.h>
#include <mpi.h>
#ifdef __unix__
#include <dlfcn.h>
#endif
using namespace dlaf;
#ifdef C29_GPU
#define c29_sources c29_gpu_sources
#define c29_all c29_gpu_all
#define c29_command_line c29_gpu_command_line
#endif
namespace po = pika::program_options;
// ---- environment: what the harness sets, nothing else -----------------------------------------------------
static struct { char name[80]; char val[32]; } env_tab[64];
static int env_n = 0;
static void put_str(char* d, const char* s) { while ((*d++ = *s++)) ; }
static bool str_eq(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
template <class F> static F next_sym(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
char* getenv(const char* n) noexcept {
  if (!vf_is_symbolic_engine() && !(n[0] == 'D' && n[1] == 'L' && n[2] == 'A' && n[3] == 'F')) return next_sym<char* (*)(const char*)>("getenv")(n);
  for (int i = 0; i < env_n; ++i) if (str_eq(env_tab[i].name, n)) return env_tab[i].val;
  return nullptr;
}
static int the_errno = 0;
int* c29_errno_location() __asm__("__errno_location");
int* c29_errno_location() { return &the_errno; }
unsigned long long c29_strtoull(const char*, char**, int) __asm__("__isoc23_strtoull");
long long c29_strtoll(const char*, char**, int) __asm__("__isoc23_strtoll");
double c29_strtod(const char*, char**) __asm__("strtod");
int c29_toupper(int) __asm__("toupper");
int c29_tolower(int) __asm__("tolower");
unsigned long long c29_strtoull(const char* s, char** e, int base) {
  vf_check(base == 10, "numbers are decimal");
  unsigned long long v = 0;
  bool neg = false;
  const char* p = s;
  if (*p == '-') { neg = true; ++p; }
  while (*p >= '0' && *p <= '9') v = v * 10 + (unsigned long long) (*p++ - '0');
  if (e) *e = (char*) p;
  return neg ? -v : v;
}
long long c29_strtoll(const char* s, char** e, int base) { return (long long) c29_strtoull(s, e, base); }
double c29_strtod(const char* s, char** e) {
  double v = 0, f = 1;
  while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
  if (*s == '.') { ++s; while (*s >= '0' && *s <= '9') { f *= 10; v = v * 10 + (*s++ - '0'); } }
  if (e) *e = (char*) s;
  return v / f;
}
int c29_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int c29_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
}
// ---- MPI ---------------------------------------------------------------------------------------------------
struct Obj { char x[512]; };
extern "C" {
Obj c29_comm_world __asm__("ompi_mpi_comm_world");
static int mpi_on = 0, mpi_level = 0, mpi_aborted = 0;
int MPI_Initialized(int* f) { *f = mpi_on; return 0; }
int MPI_Query_thread(int* p) { *p = mpi_level; return 0; }
int MPI_Abort(MPI_Comm, int) { mpi_aborted = 1; vf_cover("abort"); vf_end(); return 0; }
int MPI_Error_string(int, char* s, int* n) { *s = 0; *n = 0; return 0; }
int mini_mpi_test(void*) { return 1; }
int64_t mini_mpi_event(void*) { return 0; }
}
// ---- what the configuration is used for ----------------------------------------------------------------------
static int host_inits = 0, dev_inits = 0;
struct Pool { std::size_t a, b, c; double d, e; };
static Pool host_pool, dev_pool;
#ifdef C29_GPU
namespace dlaf::memory::internal {
void initializeUmpireHostAllocator(std::size_t a, std::size_t b, std::size_t c, double d, double e) { ++host_inits; host_pool = {a, b, c, d, e}; }
void finalizeUmpireHostAllocator() { --host_inits; }
void initializeUmpireDeviceAllocator(std::size_t a, std::size_t b, std::size_t c, double d, double e) { ++dev_inits; dev_pool = {a, b, c, d, e}; }
void finalizeUmpireDeviceAllocator() { --dev_inits; }
}
#else
namespace dlaf::memory::internal {
void initializeUmpireHostAllocator(std::size_t a, std::size_t b, std::size_t c, double d, double e) { ++host_inits; host_pool = {a, b, c, d, e}; }
void finalizeUmpireHostAllocator() { --host_inits; }
}
#endif
// ---- the parameters ----------------------------------------------------------------------------------------------
enum Kind { U, D, B, S, L, X };   // size, real, flag, signed size, layout, X: flag without a command line option
struct Par { Kind k; const char* env; const char* opt; std::size_t off; bool tune; };
#define CF(k, m, e, o) {k, "DLAF_" e, o ? "dlaf:" o : nullptr, offsetof(configuration, m), false}
#define TP(k, m, e, o) {k, "DLAF_" e, "dlaf:" o, offsetof(TuneParameters, m), true}
#define TX(m, e) {X, "DLAF_" e, nullptr, offsetof(TuneParameters, m), true}
#pragma clang diagnostic ignored "-Winvalid-offsetof"
static const Par pars[] = {
  CF(B, print_config, "PRINT_CONFIG", "print-config"),
#if PIKA_VERSION_FULL >= 0x001F00
  CF(U, num_np_gpu_streams, "NUM_NP_GPU_STREAMS", "num-np-gpu-streams"),
  CF(U, num_hp_gpu_streams, "NUM_HP_GPU_STREAMS", "num-hp-gpu-streams"),
#else
  CF(U, num_np_gpu_streams_per_thread, "NUM_NP_GPU_STREAMS_PER_THREAD", "num-np-gpu-streams-per-thread"),
  CF(U, num_hp_gpu_streams_per_thread, "NUM_HP_GPU_STREAMS_PER_THREAD", "num-hp-gpu-streams-per-thread"),
#endif
  CF(U, umpire_host_memory_pool_initial_block_bytes, "UMPIRE_HOST_MEMORY_POOL_INITIAL_BLOCK_BYTES", "umpire-host-memory-pool-initial-block-bytes"),
  CF(U, umpire_host_memory_pool_next_block_bytes, "UMPIRE_HOST_MEMORY_POOL_NEXT_BLOCK_BYTES", "umpire-host-memory-pool-next-block-bytes"),
  CF(U, umpire_host_memory_pool_alignment_bytes, "UMPIRE_HOST_MEMORY_POOL_ALIGNMENT_BYTES", "umpire-host-memory-pool-alignment-bytes"),
  CF(D, umpire_host_memory_pool_coalescing_free_ratio, "UMPIRE_HOST_MEMORY_POOL_COALESCING_FREE_RATIO", "umpire-host-memory-pool-coalescing-free-ratio"),
  CF(D, umpire_host_memory_pool_coalescing_reallocation_ratio, "UMPIRE_HOST_MEMORY_POOL_COALESCING_REALLOCATION_RATIO", "umpire-host-memory-pool-coalescing-reallocation-ratio"),
  CF(U, umpire_device_memory_pool_initial_block_bytes, "UMPIRE_DEVICE_MEMORY_POOL_INITIAL_BLOCK_BYTES", "umpire-device-memory-pool-initial-block-bytes"),
  CF(U, umpire_device_memory_pool_next_block_bytes, "UMPIRE_DEVICE_MEMORY_POOL_NEXT_BLOCK_BYTES", "umpire-device-memory-pool-next-block-bytes"),
  CF(U, umpire_device_memory_pool_alignment_bytes, "UMPIRE_DEVICE_MEMORY_POOL_ALIGNMENT_BYTES", "umpire-device-memory-pool-alignment-bytes"),
  CF(D, umpire_device_memory_pool_coalescing_free_ratio, "UMPIRE_DEVICE_MEMORY_POOL_COALESCING_FREE_RATIO", "umpire-device-memory-pool-coalescing-free-ratio"),
  CF(D, umpire_device_memory_pool_coalescing_reallocation_ratio, "UMPIRE_DEVICE_MEMORY_POOL_COALESCING_REALLOCATION_RATIO", "umpire-device-memory-pool-coalescing-reallocation-ratio"),
  CF(U, num_gpu_blas_handles, "NUM_GPU_BLAS_HANDLES", "num-gpu-blas-handles"),
  CF(U, num_gpu_lapack_handles, "NUM_GPU_LAPACK_HANDLES", "num-gpu-lapack-handles"),
  TP(L, default_allocation_layout, "DEFAULT_ALLOCATION_LAYOUT", "default_allocation_layout"),
  TP(U, tfactor_num_threads, "TFACTOR_NUM_THREADS", "tfactor-num-threads"),
  TP(U, tfactor_num_streams, "TFACTOR_NUM_STREAMS", "tfactor-num-streams"),
  TP(U, tfactor_barrier_busy_wait_us, "TFACTOR_BARRIER_BUSY_WAIT_US", "tfactor-barrier-busy-wait-us"),
  TP(U, red2band_panel_num_threads, "RED2BAND_PANEL_NUM_THREADS", "red2band-panel-num-threads"),
  TP(U, red2band_barrier_busy_wait_us, "RED2BAND_BARRIER_BUSY_WAIT_US", "red2band-barrier-busy-wait-us"),
  TP(S, eigensolver_min_band, "EIGENSOLVER_MIN_BAND", "eigensolver-min-band"),
  TP(S, band_to_tridiag_1d_block_size_base, "BAND_TO_TRIDIAG_1D_BLOCK_SIZE_BASE", "band-to-tridiag-1d-block-size-base"),
  TP(U, tridiag_rank1_num_threads, "TRIDIAG_RANK1_NUM_THREADS", "tridiag-rank1-num-threads"),
  TP(U, tridiag_rank1_barrier_busy_wait_us, "TRIDIAG_RANK1_BARRIER_BUSY_WAIT_US", "tridiag-rank1-barrier-busy-wait-us"),
  TP(S, bt_band_to_tridiag_hh_apply_group_size, "BT_BAND_TO_TRIDIAG_HH_APPLY_GROUP_SIZE", "bt-band-to-tridiag-hh-apply-group-size"),
  TP(U, communicator_grid_num_pipelines, "COMMUNICATOR_GRID_NUM_PIPELINES", "communicator-grid-num-pipelines"),
  TX(debug_dump_cholesky_factorization_data, "DEBUG_DUMP_CHOLESKY_FACTORIZATION_DATA"),
  TX(debug_dump_generalized_eigensolver_data, "DEBUG_DUMP_GENERALIZED_EIGENSOLVER_DATA"),
  TX(debug_dump_generalized_to_standard_data, "DEBUG_DUMP_GENERALIZED_TO_STANDARD_DATA"),
  TX(debug_dump_eigensolver_data, "DEBUG_DUMP_EIGENSOLVER_DATA"),
  TX(debug_dump_inverse_from_cholesky_factor_data, "DEBUG_DUMP_INVERSE_FROM_CHOLESKY_FACTOR_DATA"),
  TX(debug_dump_reduction_to_band_data, "DEBUG_DUMP_REDUCTION_TO_BAND_DATA"),
  TX(debug_dump_band_to_tridiagonal_data, "DEBUG_DUMP_BAND_TO_TRIDIAGONAL_DATA"),
  TX(debug_dump_triangular_inverse_data, "DEBUG_DUMP_TRIANGULAR_INVERSE_DATA"),
  TX(debug_dump_tridiag_solver_data, "DEBUG_DUMP_TRIDIAG_SOLVER_DATA"),
};
static const int NP = sizeof(pars) / sizeof(pars[0]);
// index of the five parameters of a memory pool
static int pool_first(bool dev) { return dev ? 8 : 3; }
struct Val { uint64_t u; double d; };
static Val base[NP], want[NP];   // base: user configuration / values before, want: effective values expected
static void* at(configuration& c, TuneParameters& t, const Par& p) { return (p.tune ? (char*) &t : (char*) &c) + p.off; }
static void store_val(void* q, const Par& p, const Val& v) {
  switch (p.k) {
    case U: *(std::size_t*) q = v.u; break;
    case S: *(SizeType*) q = (SizeType) v.u; break;
    case D: *(double*) q = v.d; break;
    case L: *(matrix::AllocationLayout*) q = (matrix::AllocationLayout) v.u; break;
    default: *(bool*) q = v.u != 0;
  }
}
static void check_val(void* q, const Par& p, const Val& v, const char* m) {
  switch (p.k) {
    case U: vf_check(*(std::size_t*) q == v.u, m); break;
    case S: vf_check(*(SizeType*) q == (SizeType) v.u, m); break;
    case D: vf_check_real(*(double*) q, v.d, m); break;
    case L: vf_check((uint64_t) *(matrix::AllocationLayout*) q == v.u, m); break;
    default: vf_check(*(bool*) q == (v.u != 0), m);
  }
}
static const char* const layouts[] = {"ColMajor", "Blocks", "Tiles", "colmajor", "BLOCKS", "tiLes"};
static const char* const trues[] = {"ON", "true", "Yes", "1"};
static const char* const falses[] = {"off", "FALSE", "nO", "0"};
static const char* const reals[] = {"0.25", "2.5", "0", "1.0"};
static const double real_vals[] = {0.25, 2.5, 0, 1.0};
// the environment variable of p is set to any value of its type
static void set_env(int p, bool few) {
  auto& e = env_tab[env_n++];
  put_str(e.name, pars[p].env);
  const char* lit = nullptr;
  switch (pars[p].k) {
    case U: case S: {
      const int nd = few ? 2 : (int) vf_pick("digits", 1, vf_param("digits", 5));
      uint64_t v = 0;
      for (int i = 0; i < nd; ++i) {
        const int8_t d = vf_i8("digit", 0, 9);
        e.val[i] = (char) ('0' + d);
        v = v * 10 + (uint64_t) d;
      }
      e.val[nd] = 0;
      want[p].u = v;
      return;
    }
    case D: { const int k = few ? 0 : (int) vf_pick("real", 0, 3); lit = reals[k]; want[p].d = real_vals[k]; break; }
    case L: { const int k = few ? 1 : (int) vf_pick("layout", 0, 5); lit = layouts[k]; want[p].u = (uint64_t) (k % 3); break; }
    default: { const int k = few ? 1 : (int) vf_pick("flag", 0, 7); lit = k < 4 ? trues[k] : falses[k - 4]; want[p].u = k < 4; }
  }
  put_str(e.val, lit);
}
// the command line option of p is given, with any value of its type
static void set_opt(po::variables_map& vm, int p, bool few) {
  const Par& q = pars[p];
  switch (q.k) {
    case U: want[p].u = vf_u64("option", 0, ~0ull); vm.set<std::size_t>(q.opt, want[p].u); break;
    case S: want[p].u = (uint64_t) vf_i64("option", INT64_MIN, INT64_MAX); vm.set<SizeType>(q.opt, (SizeType) want[p].u); break;
    case D: want[p].d = vf_real("option", 0); vm.set<double>(q.opt, want[p].d); break;
    case L: { const int k = few ? 2 : (int) vf_pick("layout option", 0, 5); vm.set<std::string>(q.opt, layouts[k]); want[p].u = (uint64_t) (k % 3); break; }
    case B: vm.set<bool>(q.opt, true); want[p].u = 1; break;
    case X: break;
  }
}
static configuration user;
static void start(bool defaults, bool flags) {
  mini::runtime_up = true;
  mini::n_threads = 4;
  user = configuration{};
  auto& t = getTuneParameters();
  configuration dflt;
  for (int i = 0; i < NP; ++i) {
    Val v{0, 0};
    void* q = at(dflt, t, pars[i]);
    if (defaults) {
      switch (pars[i].k) {
        case U: v.u = *(std::size_t*) q; break;
        case S: v.u = (uint64_t) *(SizeType*) q; break;
        case D: v.d = *(double*) q; break;
        case L: v.u = (uint64_t) *(matrix::AllocationLayout*) q; break;
        default: v.u = *(bool*) q;
      }
    }
    else {
      switch (pars[i].k) {
        case U: v.u = vf_u64("user", 0, ~0ull); break;
        case S: v.u = (uint64_t) vf_i64("user", INT64_MIN, INT64_MAX); break;
        case D: v.d = vf_real("user", 0); break;
        case L: v.u = 1; break;
        default: v.u = flags;
      }
    }
    base[i] = want[i] = v;
    store_val(at(user, t, pars[i]), pars[i], v);
  }
}
static void check_all() {
  auto& c = dlaf::internal::getConfiguration();
  auto& t = getTuneParameters();
  for (int i = 0; i < NP; ++i) check_val(at(c, t, pars[i]), pars[i], want[i], "effective value");
}
static void check_used() {
  vf_check(host_inits == 1, "the host pool is set up once");
  auto pool = [&](const Pool& p, int f) {
    vf_check(p.a == want[f].u && p.b == want[f + 1].u && p.c == want[f + 2].u, "the memory pool gets its own sizes");
    vf_check_real(p.d, want[f + 3].d, "the memory pool gets its own free ratio");
    vf_check_real(p.e, want[f + 4].d, "the memory pool gets its own reallocation ratio");
  };
  pool(host_pool, pool_first(false));
#ifdef C29_GPU
  vf_check(dev_inits == 1, "the device pool is set up once");
  pool(dev_pool, pool_first(true));
  vf_check(vf_gpu_pool[0] == want[1].u && vf_gpu_pool[1] == want[2].u && vf_gpu_pool[2] == want[13].u && vf_gpu_pool[3] == want[14].u, "the GPU pool gets its own sizes");
#endif
}
// one parameter (and possibly a second one) from any subset of the sources, everything else untouched
extern "C" void c29_sources() {
  const int p = (int) vf_pick("parameter", 0, NP - 1);
  const int sources = (int) vf_pick("sources", 0, pars[p].opt ? 3 : 1);
  const bool flags = vf_pick("flags", 0, 1);
  const bool two = vf_param("pairs", 0);
  int p2 = -1, s2 = 0;
  if (two) { p2 = (int) vf_pick("second", 0, NP - 1); s2 = (int) vf_pick("second sources", 1, pars[p2].opt ? 3 : 1); if (p2 == p) vf_end(); }
  vf_shard();
  start(false, flags);
  po::variables_map vm;
  if (sources & 1) set_env(p, two);
  if (two && (s2 & 1)) set_env(p2, true);
  if (sources & 2) set_opt(vm, p, two);
  if (two && (s2 & 2)) set_opt(vm, p2, true);
  vm.set<std::string>("other:option", "x");
  initialize(vm, user);
  check_all();
  check_used();
  for (int i = 0; i < NP; ++i) if (!pars[i].tune) check_val(at(user, getTuneParameters(), pars[i]), pars[i], base[i], "the user configuration is not changed");
  vf_cover(sources == 3 ? "both" : sources == 2 ? "option" : sources ? "environment" : "user");
  finalize();
  vf_check(host_inits == 0 && dev_inits == 0, "the pools are released");
  // a second initialization with the defaults
  env_n = 0;
  po::variables_map none;
  initialize(none);
  configuration d;
  auto& t = getTuneParameters();
  for (int i = 0; i < NP; ++i) if (!pars[i].tune) {
    Val v{0, 0};
    void* q = at(d, t, pars[i]);
    if (pars[i].k == U) v.u = *(std::size_t*) q; else if (pars[i].k == D) v.d = *(double*) q;
    check_val(at(dlaf::internal::getConfiguration(), t, pars[i]), pars[i], v, "nothing is left from an earlier initialization");
  }
  finalize();
}
// every parameter from the same source
extern "C" void c29_all() {
  const int s = (int) vf_pick("sources", 0, 4);
  vf_shard();
  start(s == 0, false);
  po::variables_map vm;
  for (int i = 0; i < NP; ++i) {
    if (s == 1 || s == 3 || (s == 4 && i % 2)) set_env(i, true);
    if (s == 2 || s == 3 || (s == 4 && !(i % 2))) set_opt(vm, i, true);
  }
  initialize(vm, user);
  check_all();
  check_used();
  vf_cover(s == 0 ? "defaults" : s == 1 ? "environment" : s == 2 ? "options" : s == 3 ? "both" : "alternating");
}
// the declared options: one for each parameter that has one, with the right type, and given as text
extern "C" void c29_command_line() {
  const int p = (int) vf_pick("parameter", 0, NP - 1);
  if (!pars[p].opt) vf_end();
  const bool with_env = vf_pick("environment", 0, 1);
  vf_shard();
  start(false, false);
  auto desc = getOptionsDescription();
  const auto* sem = desc.find(pars[p].opt);
  vf_check(sem, "the option is declared");
  const void* ty = pars[p].k == U ? (const void*) &po::type_tag<std::size_t> : pars[p].k == S ? (const void*) &po::type_tag<SizeType> : pars[p].k == D ? (const void*) &po::type_tag<double> : pars[p].k == L ? (const void*) &po::type_tag<std::string> : (const void*) &po::type_tag<bool>;
  vf_check(sem->type == ty, "the option is declared with the type of the parameter");
  if (with_env) set_env(p, true);
  char arg[160] = "--";
  put_str(arg + 2, pars[p].opt);
  std::size_t n = std::strlen(arg);
  if (pars[p].k != B) {
    arg[n++] = '=';
    if (pars[p].k == U || pars[p].k == S) {
      uint64_t v = 0;
      for (int i = 0; i < 3; ++i) { const int8_t d = vf_i8("argument digit", 0, 9); arg[n++] = (char) ('0' + d); v = v * 10 + (uint64_t) d; }
      want[p].u = v;
    }
    else if (pars[p].k == D) { put_str(arg + n, "0.75"); n += 4; want[p].d = 0.75; }
    else { put_str(arg + n, "tiles"); n += 5; want[p].u = 2; }
    arg[n] = 0;
  }
  else want[p].u = 1;
  const char* const argv[] = {"program", arg};
  initialize(2, argv, user);
  check_all();
  check_used();
  vf_cover(with_env ? "over the environment" : "given");
}
// values that are not of the parameter's type are refused
extern "C" void c29_invalid() {
  static const char* const bad[] = {"2", "", "yess", "o", "tru"};
  static const char* const bad_layout[] = {"rowmajor", "block", "tile", "col-major"};
  const int p = (int) vf_pick("parameter", 0, NP - 1);
  if (pars[p].k != B && pars[p].k != X && pars[p].k != L) vf_end();
  const int k = (int) vf_pick("value", 0, pars[p].k == L ? 3 : 4);
  vf_shard();
  start(false, false);
  auto& e = env_tab[env_n++];
  put_str(e.name, pars[p].env);
  put_str(e.val, pars[p].k == L ? bad_layout[k] : bad[k]);
  vf_cover("invalid");
  vf_allow_abort(1);
  po::variables_map vm;
  initialize(vm, user);
  vf_fail("an invalid value is accepted");
}
// MPI has to be initialized with MPI_THREAD_MULTIPLE if at all
extern "C" void c29_mpi() {
  mpi_on = (int) vf_pick("initialized", 0, 1);
  mpi_level = (int) vf_pick("level", 0, 3);
  vf_shard();
  static const int levels[] = {MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE};
  mpi_level = levels[mpi_level];
  start(false, false);
  po::variables_map vm;
  initialize(vm, user);
  vf_check(!mpi_on || mpi_level == MPI_THREAD_MULTIPLE, "MPI without full thread support is refused");
  check_all();
  vf_check(host_inits == 1, "initialized");
  vf_cover("initialized");
  vf_allow_abort(1);
  initialize(vm, user);
  vf_fail("a second initialization is accepted");
}
