// A stand-in for the run-time libraries of CUDA, HIP and SYCL (there is no
// device here).  It keeps devices, blocks of memory, streams, events and
// transfers, carries transfers out as late (or as early) as it likes within
// what the real run-times promise, and reports every call.
#pragma once
#include <cstddef>

namespace mockrt {
// Kinds of memory: 0 device, 1 managed, 2 page-locked host memory.
// Results: 0 success, otherwise an error.
int get_device(int* d);
int set_device(int d);
int device_count();
int allocate(int kind, void** p, std::size_t n, std::size_t al, int stream);
int release(int how, void* p, int stream);       // how: 0 free, 2 free host memory
int make_stream(int* s);
int drop_stream(int s);
int sync_stream(int s);
int sync_all();
int make_event(int* e);
int drop_event(int e);
int record_event(int e, int s);
int sync_event(int e);
int query_event(int e);
// what: 0 copy, 1 fill; stream -1: complete on return.  kind: the direction.
int transfer(int* t, int stream, int what, void* to, const void* from, int value, std::size_t n, int kind);
void sync_transfer(int t);
bool transfer_done(int t);
}  // namespace mockrt
