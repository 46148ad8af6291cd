// Interface between a harness and the engine (symbolic) or the native replay runtime (concrete).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// nondeterministic values in [lo, hi]
int64_t vf_i64(const char* name, int64_t lo, int64_t hi);
uint64_t vf_u64(const char* name, uint64_t lo, uint64_t hi);
int32_t vf_i32(const char* name, int64_t lo, int64_t hi);
int16_t vf_i16(const char* name, int64_t lo, int64_t hi);
int8_t vf_i8(const char* name, int64_t lo, int64_t hi);
bool vf_bool(const char* name);
double vf_real(const char* name, int64_t flags);               // flags: 1 non-zero, 2 positive
int64_t vf_pick(const char* name, int64_t lo, int64_t hi);     // exhaustive case split
int64_t vf_param(const char* name, int64_t dflt);              // from the command line
void vf_shard();                                               // work splitting point (after the picks)
void vf_assume(bool c);
void vf_check(bool c, const char* msg);
void vf_check_real(double a, double b, const char* msg);       // equality (exact in the engine)
void vf_fail(const char* msg);
void vf_cover(const char* name);                               // reachability witness
void vf_allow_abort(int on);                                   // a library abort ends the path without a violation
void vf_end();
int64_t vf_concretize(int64_t v);
int vf_is_symbolic_engine();
void* vf_virtual(int64_t bytes);                               // address range that is never dereferenced
int vf_fiber_new(void (*f)(void*), void* arg);
void vf_fiber_switch(int id);
int64_t vf_known(double x);                                        // 1 if the value is not symbolic
int64_t vf_ev(int64_t a, int64_t b);                             // happens-before event with two predecessors
void vf_track(void* p, int64_t bytes);                         // memory whose accesses have to be ordered
void vf_untrack(void* p);
void vf_log(const char* s, int64_t v);
void vf_logd(const char* s, double v);
}
