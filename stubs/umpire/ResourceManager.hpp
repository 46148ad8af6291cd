#pragma once
#include <umpire/Allocator.hpp>
namespace umpire {
class ResourceManager {
public:
  static ResourceManager& getInstance() { static ResourceManager r; return r; }
  Allocator getAllocator(const std::string&) { return Allocator{}; }
  template <class S, class... A> Allocator makeAllocator(const std::string&, A&&...) { return Allocator{}; }
};
}
