// Stand-in for the header of the run-time library, see mockrt.hpp.
#pragma once
#include <cstddef>
#include "mockrt.hpp"
typedef struct hip_stream_object* hipStream_t;
typedef struct hip_event_object* hipEvent_t;
enum hipError_t { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorMemoryAllocation = 2, hipErrorNotReady = 600, hipErrorUnknown = 999 };
enum hipMemcpyKind { hipMemcpyHostToHost = 0, hipMemcpyHostToDevice = 1, hipMemcpyDeviceToHost = 2, hipMemcpyDeviceToDevice = 3, hipMemcpyDefault = 4 };
enum { hipEventDefault = 0, hipEventBlockingSync = 1, hipEventDisableTiming = 2, hipStreamDefault = 0, hipStreamNonBlocking = 1, hipHostMallocDefault = 0, hipHostAllocDefault = 0, hipMemAttachGlobal = 1 };
namespace mockrt_hip {
inline hipError_t err(int e) { return e == 0 ? hipSuccess : e == 600 ? hipErrorNotReady : e == 2 ? hipErrorMemoryAllocation : hipErrorInvalidValue; }
inline int id(hipStream_t s) { return static_cast<int>(reinterpret_cast<std::size_t>(s) >> 8); }
inline int id(hipEvent_t e) { return static_cast<int>(reinterpret_cast<std::size_t>(e) >> 8); }
}
inline hipError_t hipGetDevice(int* d) { return mockrt_hip::err(mockrt::get_device(d)); }
inline hipError_t hipSetDevice(int d) { return mockrt_hip::err(mockrt::set_device(d)); }
inline hipError_t hipGetDeviceCount(int* n) { *n = mockrt::device_count(); return hipSuccess; }
inline const char* hipGetErrorString(hipError_t) { return "error"; }
inline const char* hipGetErrorName(hipError_t) { return "error"; }
inline hipError_t hipGetLastError() { return hipSuccess; }
inline hipError_t hipPeekAtLastError() { return hipSuccess; }
template <typename T> hipError_t hipMalloc(T** p, std::size_t n) { return mockrt_hip::err(mockrt::allocate(0, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> hipError_t hipMallocManaged(T** p, std::size_t n, unsigned = 1) { return mockrt_hip::err(mockrt::allocate(1, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> hipError_t hipMallocHost(T** p, std::size_t n, unsigned = 0) { return mockrt_hip::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> hipError_t hipHostAlloc(T** p, std::size_t n, unsigned = 0) { return mockrt_hip::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
template <typename T> hipError_t hipHostMalloc(T** p, std::size_t n, unsigned = 0) { return mockrt_hip::err(mockrt::allocate(2, reinterpret_cast<void**>(p), n, 256, 0)); }
inline hipError_t hipFree(void* p) { return mockrt_hip::err(mockrt::release(0, p, 0)); }
inline hipError_t hipFreeHost(void* p) { return mockrt_hip::err(mockrt::release(2, p, 0)); }
inline hipError_t hipHostFree(void* p) { return mockrt_hip::err(mockrt::release(2, p, 0)); }
inline hipError_t hipMemcpy(void* to, const void* from, std::size_t n, hipMemcpyKind k) { return mockrt_hip::err(mockrt::transfer(nullptr, -1, 0, to, from, 0, n, k)); }
inline hipError_t hipMemcpyAsync(void* to, const void* from, std::size_t n, hipMemcpyKind k, hipStream_t s = nullptr) { return mockrt_hip::err(mockrt::transfer(nullptr, mockrt_hip::id(s), 0, to, from, 0, n, k)); }
inline hipError_t hipMemset(void* to, int v, std::size_t n) { return mockrt_hip::err(mockrt::transfer(nullptr, -1, 1, to, nullptr, v, n, -1)); }
inline hipError_t hipMemsetAsync(void* to, int v, std::size_t n, hipStream_t s = nullptr) { return mockrt_hip::err(mockrt::transfer(nullptr, mockrt_hip::id(s), 1, to, nullptr, v, n, -1)); }
inline hipError_t hipStreamCreate(hipStream_t* s) { int i = 0; const int r = mockrt::make_stream(&i); if (r == 0) { *s = reinterpret_cast<hipStream_t>(static_cast<std::size_t>(i) << 8); } return mockrt_hip::err(r); }
inline hipError_t hipStreamCreateWithFlags(hipStream_t* s, unsigned) { return hipStreamCreate(s); }
inline hipError_t hipStreamCreateWithPriority(hipStream_t* s, unsigned, int) { return hipStreamCreate(s); }
inline hipError_t hipStreamDestroy(hipStream_t s) { return mockrt_hip::err(mockrt::drop_stream(mockrt_hip::id(s))); }
inline hipError_t hipStreamSynchronize(hipStream_t s) { return mockrt_hip::err(mockrt::sync_stream(mockrt_hip::id(s))); }
inline hipError_t hipDeviceSynchronize() { return mockrt_hip::err(mockrt::sync_all()); }
inline hipError_t hipEventCreate(hipEvent_t* e) { int i = 0; const int r = mockrt::make_event(&i); if (r == 0) { *e = reinterpret_cast<hipEvent_t>(static_cast<std::size_t>(i) << 8); } return mockrt_hip::err(r); }
inline hipError_t hipEventCreateWithFlags(hipEvent_t* e, unsigned) { return hipEventCreate(e); }
inline hipError_t hipEventDestroy(hipEvent_t e) { return mockrt_hip::err(mockrt::drop_event(mockrt_hip::id(e))); }
inline hipError_t hipEventRecord(hipEvent_t e, hipStream_t s = nullptr) { return mockrt_hip::err(mockrt::record_event(mockrt_hip::id(e), mockrt_hip::id(s))); }
inline hipError_t hipEventSynchronize(hipEvent_t e) { return mockrt_hip::err(mockrt::sync_event(mockrt_hip::id(e))); }
inline hipError_t hipEventQuery(hipEvent_t e) { return mockrt_hip::err(mockrt::query_event(mockrt_hip::id(e))); }
struct hipDeviceProp { char name[256] = "stand-in"; int pciBusID = 0; int pciDeviceID = 0; };
inline hipError_t hipGetDeviceProperties(hipDeviceProp* p, int d) { *p = hipDeviceProp(); return d >= 0 && d < mockrt::device_count() ? hipSuccess : hipErrorInvalidValue; }
