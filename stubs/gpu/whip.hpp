// the memory kind queries of the CUDA runtime: declared, not used by what is compiled with this stand-in
#pragma once
#include <stdexcept>
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1 };
enum cudaMemoryType { cudaMemoryTypeUnregistered, cudaMemoryTypeHost, cudaMemoryTypeDevice, cudaMemoryTypeManaged };
struct cudaPointerAttributes { cudaMemoryType type; };
inline cudaError_t cudaPointerGetAttributes(cudaPointerAttributes*, const void*) { return cudaErrorInvalidValue; }
namespace whip { struct exception : std::runtime_error { explicit exception(cudaError_t) : std::runtime_error("") {} }; }
