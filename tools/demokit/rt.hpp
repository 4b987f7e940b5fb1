// A small stand-in for the run-time: transfers are put off until somebody waits.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <vector>
#include "mockrt.hpp"
#define REQUIRE(x) do { if (!(x)) { std::fprintf(stderr, "failed: %s\n", #x); std::_Exit(1); } } while (0)
namespace rt {
struct block { int kind; std::size_t n, al; int dev, stream; };
struct task { int id, s, what, value; char* to; const char* from; std::size_t n; int kind; };
inline int dev = 0, devices = 2, ids = 0, fail_at = 0, dropped_wrong = 0;
inline std::map<void*, block> blocks;
inline std::map<int, int> streams;                   // to their device
inline std::map<int, std::vector<int>> events;
inline std::vector<task> pending, log;
inline bool fail() { return fail_at > 0 && --fail_at == 0; }
inline void run(std::size_t i) {
    task t = pending[i];
    pending.erase(pending.begin() + static_cast<long>(i));
    if (t.what) { std::memset(t.to, t.value, t.n); } else { std::memmove(t.to, t.from, t.n); }
}
inline void all(int s) { for (std::size_t i = 0; i < pending.size();) { if (s < 0 || pending[i].s == s) { run(i); } else { ++i; } } }
inline void force(int id) { for (std::size_t i = 0; i < pending.size(); ++i) { if (pending[i].id == id) { run(i); return; } } }
}  // namespace rt
namespace mockrt {
int get_device(int* d) { *d = rt::dev; return 0; }
int set_device(int d) { if (d < 0 || d >= rt::devices) { return 1; } rt::dev = d; return 0; }
int device_count() { return rt::devices; }
int allocate(int kind, void** p, std::size_t n, std::size_t al, int s) {
    if (rt::fail()) { return 2; }
    *p = std::aligned_alloc(al < 16 ? 16 : al, (n / (al < 16 ? 16 : al) + 1) * (al < 16 ? 16 : al));
    rt::blocks[*p] = {kind, n, al, rt::dev, s};
    return 0;
}
int release(int how, void* p, int s) {
    if (!p) { return 0; }
    rt::all(-1);
    auto b = rt::blocks.find(p);
    if (b == rt::blocks.end() || (how == 2 && b->second.kind != 2)) { ++rt::dropped_wrong; return 1; }
    rt::blocks.erase(b);
    std::free(p);
    return 0;
}
int make_stream(int* s) { if (rt::fail()) { return 1; } *s = ++rt::ids; rt::streams[*s] = rt::dev; return 0; }
int drop_stream(int s) { rt::all(s); if (!rt::streams.erase(s)) { ++rt::dropped_wrong; } return 0; }
int sync_stream(int s) { rt::all(s); return 0; }
int sync_all() { rt::all(-1); return 0; }
int make_event(int* e) { if (rt::fail()) { return 1; } *e = ++rt::ids; rt::events[*e]; return 0; }
int drop_event(int e) { rt::events.erase(e); return 0; }
int record_event(int e, int s) {
    if (rt::fail()) { return 1; }
    rt::events[e].clear();
    for (auto& t : rt::pending) { if (t.s == s) { rt::events[e].push_back(t.id); } }
    return 0;
}
int sync_event(int e) { for (int t : rt::events[e]) { rt::force(t); } return 0; }
int query_event(int e) { return 0; }
int transfer(int* t, int s, int what, void* to, const void* from, int value, std::size_t n, int kind) {
    if (rt::fail()) { return 1; }
    const int id = ++rt::ids;
    if (t) { *t = id; }
    rt::pending.push_back({id, s, what, value, static_cast<char*>(to), static_cast<const char*>(from), n, kind});
    rt::log.push_back(rt::pending.back());
    if (s < 0) { rt::run(rt::pending.size() - 1); }
    return 0;
}
void sync_transfer(int t) { rt::force(t); }
bool transfer_done(int t) { for (auto& p : rt::pending) { if (p.id == t) { return false; } } return true; }
}  // namespace mockrt
