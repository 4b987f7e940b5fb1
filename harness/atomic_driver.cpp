// Conformance driver for atomic references.  Lines:
//   R flavour type seed executions preemptions random v1 v2 v3
//        flavour: a (device_atomic_ref), d (dummy), v (vecmem::atomic), c
//        (the one of CUDA and HIP, on stand-ins of their functions), s (the
//        one of older SYCL, likewise); C and S: in the local address space.
//        d and v are not atomic, their programs have one thread only
//        type: b B h H i I l L (8, 16, 32, 64 bits, capital: unsigned)
//        v1..: initial values of three neighbouring objects
//   t thread op object x y [order failure-order]
// Compiled with -fsanitize=thread and linked with sched.cpp.
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "elements.hpp"
#include "sched.hpp"
#include "vecmem/memory/atomic.hpp"
#include "vecmem/memory/details/dummy_device_atomic_ref.hpp"
#include "vecmem/memory/device_atomic_ref.hpp"
// Stand-ins of CUDA's functions.
#define STAND_IN(name, f) template <typename T> T name(T* p, T x) { return f(p, x, __ATOMIC_RELAXED); }
STAND_IN(atomicExch, __atomic_exchange_n)
STAND_IN(atomicAdd, __atomic_fetch_add)
STAND_IN(atomicSub, __atomic_fetch_sub)
STAND_IN(atomicAnd, __atomic_fetch_and)
STAND_IN(atomicOr, __atomic_fetch_or)
STAND_IN(atomicXor, __atomic_fetch_xor)
#undef STAND_IN
template <typename T> T atomicCAS(T* p, T e, T x) { __atomic_compare_exchange_n(p, &e, x, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED); return e; }
#include "vecmem/memory/details/hip_device_atomic_ref.hpp"
#include "vecmem/memory/details/sycl_custom_device_atomic_ref.hpp"
using namespace vp;

namespace {
constexpr auto LOCAL = vecmem::device_address_space::local;
struct step {
    std::string op;
    std::size_t i = 1;
    long long x = 0, y = 0;
    int o = -1, f = -1;
};
struct plan {
    char flavour = 'a', type = 'i';
    std::uint64_t seed = 1;
    sched::limits lim;
    long long init[3] = {0, 0, 0};
    std::vector<std::vector<step>> threads;
};
template <typename T>
std::string bytes(T v) {
    std::string s = "[";
    unsigned char b[sizeof(T)];
    std::memcpy(b, &v, sizeof v);
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        s += (i ? "," : "") + num(b[i]);
    }
    return s + "]";
}

// Carries out one operation; returns the value for the event.
template <typename T, typename REF>
T perform(REF& r, const step& s, bool& has, bool& ok, bool orders) {
    const T x = static_cast<T>(s.x), y = static_cast<T>(s.y);
    const auto o = static_cast<vecmem::memory_order>(s.o < 0 ? 5 : s.o);
    const auto f = static_cast<vecmem::memory_order>(s.f < 0 ? 5 : s.f);
    (void)o;
    (void)f;
    (void)orders;
    has = s.op != "store";
    ok = true;
    if constexpr (std::is_same_v<REF, vecmem::atomic<T>>) {
        if (s.op == "load") return r.load();
        if (s.op == "store" || s.op == "assign") { r.store(x); return x; }
        if (s.op == "exch") return r.exchange(x);
        if (s.op == "add") return r.fetch_add(x);
        if (s.op == "sub") return r.fetch_sub(x);
        if (s.op == "and") return r.fetch_and(x);
        if (s.op == "or") return r.fetch_or(x);
        if (s.op == "xor") return r.fetch_xor(x);
        T e = x;
        ok = r.compare_exchange_strong(e, y);
        return e;
    } else {
        const bool d = s.o < 0;       // use the default order
        if (s.op == "load") return d ? r.load() : r.load(o);
        if (s.op == "store") { if (d) { r.store(x); } else { r.store(x, o); } return x; }
        if (s.op == "assign") return r = x;
        if (s.op == "exch") return d ? r.exchange(x) : r.exchange(x, o);
        if (s.op == "add") return d ? r.fetch_add(x) : r.fetch_add(x, o);
        if (s.op == "sub") return d ? r.fetch_sub(x) : r.fetch_sub(x, o);
        if (s.op == "and") return d ? r.fetch_and(x) : r.fetch_and(x, o);
        if (s.op == "or") return d ? r.fetch_or(x) : r.fetch_or(x, o);
        if (s.op == "xor") return d ? r.fetch_xor(x) : r.fetch_xor(x, o);
        T e = x;
        ok = d ? r.compare_exchange_strong(e, y) : s.f < 0 ? r.compare_exchange_strong(e, y, o) : r.compare_exchange_strong(e, y, o, f);
        return e;
    }
}

template <typename T>
void explore(const plan& p) {
    guarded::restart();
    guarded mem(3 * sizeof(T), alignof(T));
    T* obj = reinterpret_cast<T*>(mem.p);
    sched::unshare_all();
    sched::share(mem.p, mem.n, 1);
    using ref = vecmem::device_atomic_ref<T>;
    using dummy = vecmem::dummy_device_atomic_ref<T>;
    std::vector<ref> common;
    for (int i = 0; i < 3; ++i) {
        common.emplace_back(obj[i]);
    }
    sched::program g;
    auto values = [&] { return "[" + bytes(obj[0]) + "," + bytes(obj[1]) + "," + bytes(obj[2]) + "]"; };
    g.reset = [&] {
        for (int i = 0; i < 3; ++i) {
            obj[i] = static_cast<T>(p.init[i]);
        }
        sched::event("{\"e\":\"R\",\"atomic\":" + num(p.flavour == 'a') + ",\"vals\":" + values() + "}");
    };
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        if ((p.flavour == 'd' || p.flavour == 'v') && t > 0) {
            break;
        }
        g.threads.push_back([&, t] {
            int k = 0;
            for (const step& s : p.threads[t]) {
                ++k;
                int o = s.o < 0 || s.op == "assign" ? 5 : s.o;
                int f = s.f >= 0 ? s.f : o == 4 ? 2 : o == 3 ? 0 : o;
                sched::event("{\"e\":\"call\",\"t\":" + num(static_cast<long long>(t)) + ",\"op\":\"" + s.op + "\",\"i\":" + num(static_cast<long long>(s.i)) + ",\"x\":" + bytes(static_cast<T>(s.x)) +
                             ",\"y\":" + bytes(static_cast<T>(s.y)) + ",\"o\":" + num(o) + ",\"f\":" + num(f) + "}");
                sched::take_accesses();
                bool has = false, ok = true;
                T r{};
                if (p.flavour == 'c') {
                    vecmem::hip::device_atomic_ref<T> a(obj[s.i - 1]);
                    vecmem::cuda::device_atomic_ref<T> b(a);
                    r = perform<T>(b, s, has, ok, false);
                } else if (p.flavour == 'C') {
                    vecmem::cuda::device_atomic_ref<T, LOCAL> a(obj[s.i - 1]);
                    r = perform<T>(a, s, has, ok, false);
                } else if (p.flavour == 's') {
                    vecmem::sycl::custom_device_atomic_ref<T> a(obj[s.i - 1]);
                    vecmem::sycl::custom_device_atomic_ref<T> b(a);
                    r = perform<T>(b, s, has, ok, false);
                } else if (p.flavour == 'S') {
                    vecmem::sycl::custom_device_atomic_ref<T, LOCAL> a(obj[s.i - 1]);
                    r = perform<T>(a, s, has, ok, false);
                } else if (p.flavour == 'd') {
                    dummy a(obj[s.i - 1]);
                    r = perform<T>(a, s, has, ok, false);
                } else if (p.flavour == 'v') {
                    vecmem::atomic<T> a(&obj[s.i - 1]);
                    r = perform<T>(a, s, has, ok, false);
                } else if ((t + static_cast<std::size_t>(k) + p.seed) % 3 == 0) {
                    ref a(obj[s.i - 1]);
                    r = perform<T>(a, s, has, ok, true);
                } else if ((t + static_cast<std::size_t>(k) + p.seed) % 3 == 1) {
                    ref a(common[s.i - 1]);
                    r = perform<T>(a, s, has, ok, true);
                } else {
                    r = perform<T>(common[s.i - 1], s, has, ok, true);
                }
                std::string acc;
                std::string last;
                int n = 0;
                for (const sched::access& a : sched::take_accesses()) {
                    std::string e = std::string("[\"") + a.kind + "\"," + num(a.order) + "]";
                    if (e == last || ++n > 20) {
                        continue;
                    }
                    acc += (acc.empty() ? "" : ",") + e;
                    last = e;
                }
                sched::event("{\"e\":\"ret\",\"t\":" + num(static_cast<long long>(t)) + ",\"r\":" + (has ? bytes(r) : "[]") + ",\"ok\":" + num(ok) + ",\"acc\":[" + acc + "]}");
            }
        });
    }
    g.finish = [&] { sched::event("{\"e\":\"fin\",\"vals\":" + values() + ",\"g\":" + num(mem.intact()) + "}"); };
    const sched::result res = sched::explore(g, p.lim);
    for (const auto& h : res.histories) {
        for (const std::string& e : h) {
            emit(e);
        }
    }
}
void go(const plan& p) {
    if (p.threads.empty()) {
        return;
    }
    switch (p.type) {
        case 'b': explore<std::int8_t>(p); break;
        case 'B': explore<std::uint8_t>(p); break;
        case 'h': explore<std::int16_t>(p); break;
        case 'H': explore<std::uint16_t>(p); break;
        case 'I': explore<std::uint32_t>(p); break;
        case 'l': explore<std::int64_t>(p); break;
        case 'L': explore<std::uint64_t>(p); break;
        default: explore<std::int32_t>(p);
    }
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    plan p;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op, a, b;
        is >> op;
        if (op == "R") {
            go(p);
            p = plan();
            is >> a >> b >> p.seed >> p.lim.executions >> p.lim.preemptions >> p.lim.random >> p.init[0] >> p.init[1] >> p.init[2];
            p.lim.seed = p.seed;
            p.flavour = a[0];
            p.type = b[0];
        } else if (op == "t") {
            std::size_t t = 0;
            step s;
            is >> t >> s.op >> s.i >> s.x >> s.y;
            if (!(is >> s.o)) {
                s.o = -1;
            }
            if (!(is >> s.f)) {
                s.f = -1;
            }
            while (p.threads.size() <= t) {
                p.threads.emplace_back();
            }
            p.threads[t].push_back(s);
        }
    }
    go(p);
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
