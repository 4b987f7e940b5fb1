// Stand-in for the header of the run-time library, see mockrt.hpp.
#pragma once
#include <cstddef>
#include "mockrt.hpp"
typedef struct cuda_stream_object* cudaStream_t;
typedef struct cuda_event_object* cudaEvent_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorNotReady = 600, cudaErrorUnknown = 999 };
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2, cudaStreamDefault = 0, cudaStreamNonBlocking = 1, cudaHostMallocDefault = 0, cudaHostAllocDefault = 0, cudaMemAttachGlobal = 1 };
namespace mockrt_cuda {
inline cudaError_t err(int e) { return e == 0 ? cudaSuccess : e == 600 ? cudaErrorNotReady : e == 2 ? cudaErrorMemoryAllocation : cudaErrorInvalidValue; }
inline int id(cudaStream_t s) { return static_cast<int>(reinterpret_cast<std::size_t>(s) >> 8); }
inline int id(cudaEvent_t e) { return static_cast<int>(reinterpret_cast<std::size_t>(e) >> 8); }
}
inline cudaError_t cudaGetDevice(int* d) { return mockrt_cuda::err(mockrt::get_device(d)); }
inline cudaError_t cudaSetDevice(int d) { return mockrt_cuda::err(mockrt::set_device(d)); }
inline cudaError_t cudaGetDeviceCount(int* n) { *n = mockrt::device_count(); return cudaSuccess; }
inline const char* cudaGetErrorString(cudaError_t) { return "error"; }
inline const char* cudaGetErrorName(cudaError_t) { return "error"; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaPeekAtLastError() { return cudaSuccess; }
template <typename T> cudaError_t cudaMalloc(T** p, std::size_t n) { return mockrt_cuda::err(mockrt::allocate(0, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> cudaError_t cudaMallocManaged(T** p, std::size_t n, unsigned = 1) { return mockrt_cuda::err(mockrt::allocate(1, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> cudaError_t cudaMallocHost(T** p, std::size_t n, unsigned = 0) { return mockrt_cuda::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> cudaError_t cudaHostAlloc(T** p, std::size_t n, unsigned = 0) { return mockrt_cuda::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> cudaError_t cudaHostMalloc(T** p, std::size_t n, unsigned = 0) { return mockrt_cuda::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
inline cudaError_t cudaFree(void* p) { return mockrt_cuda::err(mockrt::release(0, p, 0)); }
inline cudaError_t cudaFreeHost(void* p) { return mockrt_cuda::err(mockrt::release(2, p, 0)); }
inline cudaError_t cudaHostFree(void* p) { return mockrt_cuda::err(mockrt::release(2, p, 0)); }
inline cudaError_t cudaMemcpy(void* to, const void* from, std::size_t n, cudaMemcpyKind k) { return mockrt_cuda::err(mockrt::transfer(nullptr, -1, 0, to, from, 0, n, k)); }
inline cudaError_t cudaMemcpyAsync(void* to, const void* from, std::size_t n, cudaMemcpyKind k, cudaStream_t s = nullptr) { return mockrt_cuda::err(mockrt::transfer(nullptr, mockrt_cuda::id(s), 0, to, from, 0, n, k)); }
inline cudaError_t cudaMemset(void* to, int v, std::size_t n) { return mockrt_cuda::err(mockrt::transfer(nullptr, -1, 1, to, nullptr, v, n, -1)); }
inline cudaError_t cudaMemsetAsync(void* to, int v, std::size_t n, cudaStream_t s = nullptr) { return mockrt_cuda::err(mockrt::transfer(nullptr, mockrt_cuda::id(s), 1, to, nullptr, v, n, -1)); }
inline cudaError_t cudaStreamCreate(cudaStream_t* s) { int i = 0; const int r = mockrt::make_stream(&i); if (r == 0) { *s = reinterpret_cast<cudaStream_t>(static_cast<std::size_t>(i) << 8); } return mockrt_cuda::err(r); }
inline cudaError_t cudaStreamCreateWithFlags(cudaStream_t* s, unsigned) { return cudaStreamCreate(s); }
inline cudaError_t cudaStreamCreateWithPriority(cudaStream_t* s, unsigned, int) { return cudaStreamCreate(s); }
inline cudaError_t cudaStreamDestroy(cudaStream_t s) { return mockrt_cuda::err(mockrt::drop_stream(mockrt_cuda::id(s))); }
inline cudaError_t cudaStreamSynchronize(cudaStream_t s) { return mockrt_cuda::err(mockrt::sync_stream(mockrt_cuda::id(s))); }
inline cudaError_t cudaDeviceSynchronize() { return mockrt_cuda::err(mockrt::sync_all()); }
inline cudaError_t cudaEventCreate(cudaEvent_t* e) { int i = 0; const int r = mockrt::make_event(&i); if (r == 0) { *e = reinterpret_cast<cudaEvent_t>(static_cast<std::size_t>(i) << 8); } return mockrt_cuda::err(r); }
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { return cudaEventCreate(e); }
inline cudaError_t cudaEventDestroy(cudaEvent_t e) { return mockrt_cuda::err(mockrt::drop_event(mockrt_cuda::id(e))); }
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = nullptr) { return mockrt_cuda::err(mockrt::record_event(mockrt_cuda::id(e), mockrt_cuda::id(s))); }
inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return mockrt_cuda::err(mockrt::sync_event(mockrt_cuda::id(e))); }
inline cudaError_t cudaEventQuery(cudaEvent_t e) { return mockrt_cuda::err(mockrt::query_event(mockrt_cuda::id(e))); }
struct cudaDeviceProp { char name[256] = "stand-in"; int pciBusID = 0; int pciDeviceID = 0; };
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d) { *p = cudaDeviceProp(); return d >= 0 && d < mockrt::device_count() ? cudaSuccess : cudaErrorInvalidValue; }
