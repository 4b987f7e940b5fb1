// Stand-in for SYCL, see mockrt.hpp.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdio>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include "mockrt.hpp"
#define CL_SYCL_STAND_IN 1
#define SYCL_EXTERNAL
namespace sycl {
namespace info {
namespace device {
struct name {};
}
}  // namespace info
class device {
public:
    template <typename I>
    std::string get_info() const { return "stand-in"; }
};
class event {
    int m_t = -1;
public:
    event() = default;
    explicit event(int t) : m_t(t) {}
    void wait() { if (m_t >= 0) { mockrt::sync_transfer(m_t); } }
    void wait_and_throw() { wait(); }
    static void wait(const std::vector<event>& es) { for (event e : es) { e.wait(); } }
    static void wait_and_throw(const std::vector<event>& es) { wait(es); }
};
namespace usm {
enum class alloc { host, device, shared, unknown };
}
class handler;
class queue {
    struct impl {
        int s = 0;
        impl() { mockrt::make_stream(&s); }
        ~impl() { mockrt::drop_stream(s); }
    };
    std::shared_ptr<impl> m_impl = std::make_shared<impl>();
public:
    queue() = default;
    int id() const { return m_impl->s; }
    event memcpy(void* to, const void* from, std::size_t n) { int t = -1; mockrt::transfer(&t, id(), 0, to, from, 0, n, -1); return event(t); }
    event memset(void* to, int v, std::size_t n) { int t = -1; mockrt::transfer(&t, id(), 1, to, nullptr, v, n, -1); return event(t); }
    template <typename T>
    event copy(const T* from, T* to, std::size_t n) { return memcpy(to, from, n * sizeof(T)); }
    template <typename T>
    event fill(T* to, const T& v, std::size_t n) { static_assert(sizeof(T) == 1, ""); return memset(to, static_cast<unsigned char>(v), n); }
    template <typename F>
    event submit(F f);
    void wait() { mockrt::sync_stream(id()); }
    void wait_and_throw() { wait(); }
    device get_device() const { return {}; }
    bool operator==(const queue& o) const { return m_impl == o.m_impl; }
    bool operator!=(const queue& o) const { return m_impl != o.m_impl; }
};
// A command group: one transfer is what is used here.
class handler {
    queue& m_q;
    event m_e;
    friend class queue;
    explicit handler(queue& q) : m_q(q) {}
public:
    void memcpy(void* to, const void* from, std::size_t n) { m_e = m_q.memcpy(to, from, n); }
    void memset(void* to, int v, std::size_t n) { m_e = m_q.memset(to, v, n); }
    template <typename T>
    void copy(const T* from, T* to, std::size_t n) { m_e = m_q.copy(from, to, n); }
    template <typename T>
    void fill(T* to, const T& v, std::size_t n) { m_e = m_q.fill(to, v, n); }
};
template <typename F>
event queue::submit(F f) { handler h(*this); f(h); return h.m_e; }
inline void* aligned_alloc_device(std::size_t al, std::size_t n, const queue& q) { void* p = nullptr; mockrt::allocate(0, &p, n, al, q.id()); return p; }
inline void* aligned_alloc_shared(std::size_t al, std::size_t n, const queue& q) { void* p = nullptr; mockrt::allocate(1, &p, n, al, q.id()); return p; }
inline void* aligned_alloc_host(std::size_t al, std::size_t n, const queue& q) { void* p = nullptr; mockrt::allocate(2, &p, n, al, q.id()); return p; }
inline void* malloc_device(std::size_t n, const queue& q) { return aligned_alloc_device(1, n, q); }
inline void* malloc_shared(std::size_t n, const queue& q) { return aligned_alloc_shared(1, n, q); }
inline void* malloc_host(std::size_t n, const queue& q) { return aligned_alloc_host(1, n, q); }
inline void* aligned_alloc(std::size_t al, std::size_t n, const queue& q, usm::alloc k) {
    return k == usm::alloc::device ? aligned_alloc_device(al, n, q) : k == usm::alloc::shared ? aligned_alloc_shared(al, n, q) : k == usm::alloc::host ? aligned_alloc_host(al, n, q) : nullptr;
}
inline void* malloc(std::size_t n, const queue& q, usm::alloc k) { return aligned_alloc(1, n, q, k); }
inline void free(void* p, const queue& q) { mockrt::release(0, p, q.id()); }

// The atomic functions of SYCL 1.2.1.
namespace access {
enum class address_space { global_space, local_space };
}
template <typename T>
struct global_ptr { T* p; explicit global_ptr(T* q) : p(q) {} };
template <typename T>
struct local_ptr { T* p; explicit local_ptr(T* q) : p(q) {} };
template <typename T, access::address_space A = access::address_space::global_space>
struct atomic {
    T* p;
    explicit atomic(global_ptr<T> q) : p(q.p) { static_assert(A == access::address_space::global_space, ""); }
    explicit atomic(local_ptr<T> q) : p(q.p) { static_assert(A == access::address_space::local_space, ""); }
};
#define STAND_IN(name, expr) template <typename T, access::address_space A> auto name(atomic<T, A> a, T x) { return expr; }
STAND_IN(atomic_exchange, __atomic_exchange_n(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_add, __atomic_fetch_add(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_sub, __atomic_fetch_sub(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_and, __atomic_fetch_and(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_or, __atomic_fetch_or(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_xor, __atomic_fetch_xor(a.p, x, __ATOMIC_RELAXED))
STAND_IN(atomic_fetch_min, 0)
STAND_IN(atomic_fetch_max, 0)
#undef STAND_IN
template <typename T, access::address_space A> void atomic_store(atomic<T, A> a, T x) { __atomic_store_n(a.p, x, __ATOMIC_RELAXED); }
template <typename T, access::address_space A> T atomic_load(atomic<T, A> a) { return __atomic_load_n(a.p, __ATOMIC_RELAXED); }
template <typename T, access::address_space A> bool atomic_compare_exchange_strong(atomic<T, A> a, T& e, T x) { return __atomic_compare_exchange_n(a.p, &e, x, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); }
}  // namespace sycl
