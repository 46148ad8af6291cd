// stand-in for umpire: plain heap memory
#pragma once
#include <cstddef>
#include <cstdlib>
#include <string>
#include "vf.h"
namespace umpire {
class Allocator {
public:
  void* allocate(std::size_t n) { void* p = std::malloc(n); vf_track(p, (int64_t) n); return p; }
  void deallocate(void* p) { vf_untrack(p); std::free(p); }
};
}
