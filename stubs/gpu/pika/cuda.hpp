// records what the GPU pool is created with
#pragma once
#include <cstddef>
#include <pika/runtime.hpp>
#define cudaStreamNonBlocking 1
inline std::size_t vf_gpu_pool[4];
namespace pika::cuda::experimental {
struct cuda_pool {
  cuda_pool(int, std::size_t np, std::size_t hp, int, std::size_t blas, std::size_t lapack) { vf_gpu_pool[0] = np; vf_gpu_pool[1] = hp; vf_gpu_pool[2] = blas; vf_gpu_pool[3] = lapack; }
};
namespace detail { template <class P> void register_polling(P&) {} }
}
