// Native replay runtime: the same harness, compiled normally (with sanitizers), fed with concrete values.
#include "vf.h"
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#ifndef VF_ENTRY
#define VF_ENTRY entry
#endif
static std::vector<std::pair<std::string, std::string>> vals;
static size_t at = 0;
static bool abortOk = false;
static std::string next(const char* n) {
  // names carry an occurrence suffix "#k"
  while (at < vals.size()) {
    auto& v = vals[at++];
    std::string b = v.first.substr(0, v.first.find('#'));
    if (b.rfind("param:", 0) == 0) b = b.substr(6);
    if (b == n) return v.second;
    printf("VF_DIVERGED: wanted %s, next value is %s\n", n, v.first.c_str());
    fflush(stdout);
    _exit(10);
  }
  printf("VF_DIVERGED: no value for %s\n", n);
  fflush(stdout);
  _exit(10);
}
extern "C" {
static void finish(int rc, const char* w) {
  printf("%s\n", w);
  fflush(stdout);
  _exit(rc);
}
int64_t vf_i64(const char* n, int64_t, int64_t) { return strtoll(next(n).c_str(), 0, 10); }
uint64_t vf_u64(const char* n, uint64_t, uint64_t) { return strtoull(next(n).c_str(), 0, 10); }
int32_t vf_i32(const char* n, int64_t, int64_t) { return (int32_t) strtoll(next(n).c_str(), 0, 10); }
int16_t vf_i16(const char* n, int64_t, int64_t) { return (int16_t) strtoll(next(n).c_str(), 0, 10); }
int8_t vf_i8(const char* n, int64_t, int64_t) { return (int8_t) strtoll(next(n).c_str(), 0, 10); }
bool vf_bool(const char* n) { return strtoll(next(n).c_str(), 0, 10) != 0; }
double vf_real(const char* n, int64_t) { return strtod(next(n).c_str(), 0); }
int64_t vf_pick(const char* n, int64_t, int64_t) { return strtoll(next(n).c_str(), 0, 10); }
int64_t vf_param(const char* n, int64_t) { return strtoll(next(n).c_str(), 0, 10); }
void vf_shard() {}
void vf_assume(bool c) { if (!c) finish(0, "VF_ASSUME_FALSE"); }
void vf_check(bool c, const char* m) {
  if (!c) { printf("VF_CHECK_FAILED: %s\n", m); fflush(stdout); _exit(3); }
}
void vf_check_real(double a, double b, const char* m) {
  double t = 1e-7 * (1 + fabs(a) + fabs(b));
  if (!(a == b) && !(fabs(a - b) <= t)) { printf("VF_CHECK_FAILED: %s (%.17g vs %.17g)\n", m, a, b); fflush(stdout); _exit(3); }
}
void vf_fail(const char* m) { vf_check(false, m); }
void vf_cover(const char* n) { printf("VF_COVER %s\n", n); }
void vf_allow_abort(int on) { abortOk = on; }
void vf_end() { finish(0, "VF_END"); }
int64_t vf_concretize(int64_t v) { return v; }
int vf_is_symbolic_engine() { return 0; }
void* vf_virtual(int64_t b) {
  void* p = mmap(nullptr, b ? b : 1, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return (void*) 0x10000;  // an address range larger than the address space; never dereferenced
  return p;
}
struct Fb { ucontext_t c; void (*f)(void*); void* a; };
static std::vector<Fb*> fbs;
static int curf = 0;
static void tramp(unsigned lo, unsigned hi) {
  Fb* b = (Fb*) (((uintptr_t) hi << 32) | lo);
  b->f(b->a);
}
int vf_fiber_new(void (*f)(void*), void* a) {
  if (fbs.empty()) fbs.push_back(new Fb());
  Fb* b = new Fb();
  b->f = f; b->a = a;
  getcontext(&b->c);
  b->c.uc_stack.ss_size = 1 << 22;
  b->c.uc_stack.ss_sp = malloc(1 << 22);
  b->c.uc_link = nullptr;
  makecontext(&b->c, (void (*)()) tramp, 2, (unsigned) (uintptr_t) b, (unsigned) ((uintptr_t) b >> 32));
  fbs.push_back(b);
  return fbs.size() - 1;
}
void vf_fiber_switch(int id) {
  int o = curf;
  curf = id;
  swapcontext(&fbs[o]->c, &fbs[id]->c);
}
int64_t vf_known(double) { return 1; }
int64_t vf_ev(int64_t, int64_t) { return 0; }
void vf_track(void*, int64_t) {}
void vf_untrack(void*) {}
void vf_log(const char*, int64_t) {}
void vf_logd(const char*, double) {}
void VF_ENTRY();
}
static void onAbort(int) {
  if (abortOk) { write(1, "VF_ABORT_ALLOWED\n", 17); _exit(0); }
  write(1, "VF_ABORTED\n", 11);
  _exit(4);
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc > 1) {
    std::ifstream f(argv[1]);
    std::string l;
    while (std::getline(f, l)) {
      auto p = l.rfind(' ');
      if (p != std::string::npos) vals.push_back({l.substr(0, p), l.substr(p + 1)});
    }
  }
  signal(SIGABRT, onAbort);
  VF_ENTRY();
  finish(0, "VF_OK");
}
