// Conformance driver for the CUDA, HIP and SYCL libraries, on top of the
// stand-in run-time of mock/ (which is implemented here).  Lines:
//   R backend seed devices          backend: c, h or s
//   dev d                           the client switches devices
//   res r kind dev|wrapper          kind: 0 device, 1 managed, 2 host; -1: default
//   alloc h r n align | free h | null r | eq r r2 | rdel r
//   wnew w dev | wbor w q | wcopy w v | wmove w v | wasg w v | wmasg w v
//   wdel w | wsync w                stream and queue wrappers (wbor: of a stream
//                                   that the client made, number q)
//   cnew c sync wrapper | cdel c    copy objects
//   copy c e a off b off n hint     memory a, b: allocations, or 0: host memory
//   fill c e a off n value          e: the event that is returned
//   ewait e | eign e | edrop e
//   jag c r hint-known sizes...     a whole round trip of a jagged vector
//   E k...                          calls of the run-time that fail in the next call
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "mockrt.hpp"
#include "sycl/sycl.hpp"
#include "trace.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
#include "vecmem/memory/cuda/device_memory_resource.hpp"
#include "vecmem/memory/cuda/host_memory_resource.hpp"
#include "vecmem/memory/cuda/managed_memory_resource.hpp"
#include "vecmem/memory/hip/device_memory_resource.hpp"
#include "vecmem/memory/hip/host_memory_resource.hpp"
#include "vecmem/memory/hip/managed_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/sycl/device_memory_resource.hpp"
#include "vecmem/memory/sycl/host_memory_resource.hpp"
#include "vecmem/memory/sycl/shared_memory_resource.hpp"
#include "vecmem/utils/cuda/async_copy.hpp"
#include "vecmem/utils/cuda/copy.hpp"
#include "vecmem/utils/cuda/stream_wrapper.hpp"
#include "vecmem/utils/hip/copy.hpp"
#include "vecmem/utils/sycl/async_copy.hpp"
#include "vecmem/utils/sycl/copy.hpp"
#include "vecmem/utils/sycl/queue_wrapper.hpp"
using namespace vp;

// ------------------------------------------------------------ the run-time ---
namespace {
struct task {
    int id, s, what, value;
    char* to;
    const char* from;
    std::size_t n;
};
struct runtime {
    rng r{1};
    char backend = 'c';
    int devices = 2, current = 0;
    int ids = 0;
    int fallible = 0;
    std::map<long long, std::size_t> blocks;
    std::set<int> streams;
    std::map<int, std::vector<int>> events;
    std::vector<task> pending;
    bool copied_fill = false;

    void run(std::size_t i) {
        const task t = pending[i];
        pending.erase(pending.begin() + static_cast<long>(i));
        if (t.what == 0) {
            std::memmove(t.to, t.from, t.n);
        } else {
            std::memset(t.to, t.value, t.n);
        }
        emit("{\"e\":\"do\",\"x\":[" + num(t.id) + "]}");
    }
    // Queues of SYCL are not in order.
    bool ready(std::size_t i) const {
        if (backend == 's') {
            return true;
        }
        for (std::size_t k = 0; k < i; ++k) {
            if (pending[k].s == pending[i].s) {
                return false;
            }
        }
        return true;
    }
    void some() {
        while (!pending.empty() && r.below(4) == 0) {
            const std::size_t i = r.below(pending.size());
            if (ready(i)) {
                run(i);
            }
        }
    }
    void all(int s) {
        for (std::size_t i = 0; i < pending.size();) {
            if (s < 0 || pending[i].s == s) {
                run(i);
            } else {
                ++i;
            }
        }
    }
    // Carries out everything if any of it writes to some memory.
    void settle(const char* b, std::size_t n) {
        for (const task& t : pending) {
            if (static_cast<const char*>(t.to) < b + n && b < static_cast<const char*>(t.to) + t.n) {
                all(-1);
                return;
            }
        }
    }
    bool is_pending(int t) const {
        for (const task& p : pending) {
            if (p.id == t) {
                return true;
            }
        }
        return false;
    }
    void force(int t) {
        while (is_pending(t)) {
            for (std::size_t i = 0; i < pending.size(); ++i) {
                if (ready(i) && (pending[i].id == t || backend != 's')) {
                    run(i);
                    break;
                }
            }
        }
    }
    // What is under way when a call fails may have been carried out by then.
    bool fail() {
        const bool bad = faults().fail_now();
        if (bad) {
            all(-1);
        }
        return bad;
    }
    static void api(const char* f, std::initializer_list<long long> x, int result) {
        std::string s = std::string("{\"e\":\"api\",\"f\":\"") + f + "\",\"x\":[";
        bool first = true;
        for (long long v : x) {
            s += (first ? "" : ",") + num(v);
            first = false;
        }
        emit(s + "],\"r\":" + num(result) + "}");
    }
};
runtime& rt() {
    static runtime x;
    return x;
}
}  // namespace
namespace mockrt {
int get_device(int* d) { *d = rt().current; return 0; }
int device_count() { return rt().devices; }
int set_device(int d) {
    const bool bad = d < 0 || d >= rt().devices;
    runtime::api("set", {d}, bad);
    if (!bad) { rt().current = d; }
    return bad;
}
int allocate(int kind, void** p, std::size_t n, std::size_t al, int s) {
    rt().some();
    long long a = -1;
    if (!rt().fail()) {
        a = places().place(n ? n : 1, al);
    }
    runtime::api("mal", {kind, cap(n), cap(al), a, s}, a < 0);
    if (a < 0) { return 2; }
    rt().blocks[a] = n;
    *p = reg().base + a;
    std::memset(*p, 0x5a, n < 65536 ? n : 65536);
    return 0;
}
int release(int how, void* p, int s) {
    if (p == nullptr) { return 0; }
    rt().all(-1);
    const long long a = reg().pos(p);
    runtime::api("fre", {how, a, s}, 0);
    rt().blocks.erase(a);
    places().used.erase(a);
    return 0;
}
int make_stream(int* s) {
    rt().some();
    const bool bad = rt().backend != 's' && rt().fail();
    *s = bad ? 0 : ++rt().ids;
    runtime::api("sc", {*s}, bad);
    if (!bad) { rt().streams.insert(*s); }
    return bad;
}
int drop_stream(int s) {
    rt().all(s);
    runtime::api("sd", {s}, 0);
    rt().streams.erase(s);
    return 0;
}
int sync_stream(int s) { rt().some(); rt().all(s); runtime::api("ss", {s}, 0); return 0; }
int sync_all() { rt().all(-1); return 0; }
int make_event(int* e) {
    const bool bad = rt().fail();
    *e = bad ? 0 : ++rt().ids;
    runtime::api("ec", {*e}, bad);
    if (!bad) { rt().events[*e]; }
    return bad;
}
int drop_event(int e) { runtime::api("ed", {e}, 0); rt().events.erase(e); return 0; }
int record_event(int e, int s) {
    const bool bad = rt().fail();
    runtime::api("er", {e, s}, bad);
    if (bad) { return 1; }
    std::vector<int>& v = rt().events[e];
    v.clear();
    for (const task& t : rt().pending) {
        if (t.s == s || s == 0) { v.push_back(t.id); }
    }
    return 0;
}
int sync_event(int e) {
    rt().some();
    for (int t : rt().events[e]) { rt().force(t); }
    runtime::api("es", {e}, 0);
    return 0;
}
int query_event(int e) {
    for (int t : rt().events[e]) {
        if (rt().is_pending(t)) { return 600; }
    }
    return 0;
}
int transfer(int* t, int s, int what, void* to, const void* from, int value, std::size_t n, int kind) {
    rt().some();
    const bool bad = rt().backend != 's' && rt().fail();
    const int id = bad ? 0 : ++rt().ids;
    if (t) { *t = id; }
    runtime::api("tx", {id, s, what, reg().pos(to), what ? (value & 255) : reg().pos(from), cap(n), kind}, bad);
    if (bad) { return 1; }
    rt().pending.push_back({id, s, what, value, static_cast<char*>(to), static_cast<const char*>(from), n});
    if (s < 0) {
        rt().run(rt().pending.size() - 1);
    } else {
        rt().some();
    }
    return 0;
}
void sync_transfer(int t) { rt().some(); rt().force(t); }
bool transfer_done(int t) { return !rt().is_pending(t); }
}  // namespace mockrt

// -------------------------------------------------------------- the client ---
namespace {
struct wrapper {
    virtual ~wrapper() = default;
    virtual int stream() = 0;
    virtual std::unique_ptr<wrapper> copy() = 0;
    virtual std::unique_ptr<wrapper> move() = 0;
    virtual void assign(wrapper& o) = 0;
    virtual void move_from(wrapper& o) = 0;
    virtual void sync() {}
};
std::map<int, std::pair<int, std::unique_ptr<::sycl::queue>>> own;      // streams of the client
template <typename W>
struct wrap : wrapper {
    W w;
    template <typename... X>
    explicit wrap(X&&... x) : w(std::forward<X>(x)...) {}
    int stream() override {
        if constexpr (std::is_same_v<W, vecmem::cuda::stream_wrapper>) {
            return static_cast<int>(reinterpret_cast<std::size_t>(w.stream()) >> 8);
        } else {
            const W& c = w;
            return w.queue() != c.queue() ? -7 : static_cast<::sycl::queue*>(w.queue())->id();
        }
    }
    std::unique_ptr<wrapper> copy() override { const W& c = w; return std::make_unique<wrap>(c); }
    std::unique_ptr<wrapper> move() override { return std::make_unique<wrap>(std::move(w)); }
    void assign(wrapper& o) override { const W& c = static_cast<wrap&>(o).w; w = c; }
    void move_from(wrapper& o) override { w = std::move(static_cast<wrap&>(o).w); }
    void sync() override {
        if constexpr (std::is_same_v<W, vecmem::cuda::stream_wrapper>) {
            w.synchronize();
        }
    }
};
using cuda_wrap = wrap<vecmem::cuda::stream_wrapper>;
using sycl_wrap = wrap<vecmem::sycl::queue_wrapper>;

char backend = 'c';
std::map<int, std::unique_ptr<vecmem::memory_resource>> res;
struct block { int r; void* p; std::size_t n, al; };
std::map<int, block> held;
std::map<int, std::unique_ptr<wrapper>> wrs;
std::map<int, std::unique_ptr<vecmem::copy>> cps;
std::map<int, vecmem::copy::event_type> evs;
char* host = nullptr;
constexpr std::size_t HOST = 1 << 16;

void call(const std::string& op, const std::vector<long long>& x) {
    std::string s = "{\"e\":\"call\",\"op\":\"" + op + "\",\"x\":[";
    for (std::size_t i = 0; i < x.size(); ++i) {
        s += (i ? "," : "") + num(x[i] < 0 ? x[i] : cap(static_cast<std::size_t>(x[i])));
    }
    emit(s + "]}");
}
template <typename F>
void perform(F f) {
    const char* r = "ok";
    long long a = -1;
    try {
        a = f();
    } catch (const std::bad_alloc&) {
        r = "bad";
    } catch (...) {
        r = "exc";
    }
    faults() = fault_plan();
    emit(std::string("{\"e\":\"ret\",\"r\":\"") + r + "\",\"a\":" + num(a) + ",\"cur\":" + num(rt().current) + "}");
}

std::unique_ptr<vecmem::memory_resource> make_resource(int kind, long long d) {
    if (backend == 's') {
        if (d < 0) {
            switch (kind) {
                case 0: return std::make_unique<vecmem::sycl::device_memory_resource>();
                case 1: return std::make_unique<vecmem::sycl::shared_memory_resource>();
                default: return std::make_unique<vecmem::sycl::host_memory_resource>();
            }
        }
        const vecmem::sycl::queue_wrapper& w = static_cast<sycl_wrap&>(*wrs.at(static_cast<int>(d))).w;
        switch (kind) {
            case 0: return std::make_unique<vecmem::sycl::device_memory_resource>(w);
            case 1: return std::make_unique<vecmem::sycl::shared_memory_resource>(w);
            default: return std::make_unique<vecmem::sycl::host_memory_resource>(w);
        }
    }
    const int dev = static_cast<int>(d);
    if (backend == 'h') {
        switch (kind) {
            case 0: return d < 0 ? std::make_unique<vecmem::hip::device_memory_resource>() : std::make_unique<vecmem::hip::device_memory_resource>(dev);
            case 1: return std::make_unique<vecmem::hip::managed_memory_resource>();
            default: return std::make_unique<vecmem::hip::host_memory_resource>();
        }
    }
    switch (kind) {
        case 0: return d < 0 ? std::make_unique<vecmem::cuda::device_memory_resource>() : std::make_unique<vecmem::cuda::device_memory_resource>(dev);
        case 1: return std::make_unique<vecmem::cuda::managed_memory_resource>();
        default: return std::make_unique<vecmem::cuda::host_memory_resource>();
    }
}
std::unique_ptr<vecmem::copy> make_copy(bool sync, int w) {
    if (backend == 'h') {
        return std::make_unique<vecmem::hip::copy>();
    }
    if (backend == 's') {
        const auto& q = static_cast<sycl_wrap&>(*wrs.at(w)).w;
        return sync ? std::unique_ptr<vecmem::copy>(std::make_unique<vecmem::sycl::copy>(q)) : std::make_unique<vecmem::sycl::async_copy>(q);
    }
    if (sync) {
        return std::make_unique<vecmem::cuda::copy>();
    }
    return std::make_unique<vecmem::cuda::async_copy>(static_cast<cuda_wrap&>(*wrs.at(w)).w);
}
bool contents(const char* p, std::size_t n, int v) {
    for (std::size_t i = 0; i < n; ++i) {
        if (static_cast<unsigned char>(p[i]) != static_cast<unsigned char>(v)) {
            return false;
        }
    }
    return true;
}
// A jagged vector to the device and back; waiting for nothing but the events.
long long round_trip(vecmem::copy& c, vecmem::memory_resource& mr, bool known, const std::vector<long long>& sizes) {
    using type = vecmem::copy::type;
    vecmem::host_memory_resource h;
    vecmem::jagged_vector<int> in(&h), out(&h);
    std::vector<unsigned> caps;
    int v = 1;
    for (long long n : sizes) {
        vecmem::vector<int> row(&h);
        for (long long i = 0; i < n; ++i) {
            row.push_back(v++);
        }
        in.push_back(row);
        caps.push_back(static_cast<unsigned>(n + v % 2));
    }
    vecmem::data::jagged_vector_buffer<int> b(caps, mr, &h, vecmem::data::buffer_type::resizable);
    c.setup(b)->wait();
    const auto data = vecmem::get_data(in);
    c(data, b, known ? type::host_to_device : type::unknown)->wait();
    c(b, out, known ? type::device_to_host : type::unknown)->wait();
    bool ok = out == in;
    // The first row alone, by way of a resizable vector, and of a host vector.
    if (!in.empty()) {
        vecmem::data::vector_buffer<int> b1(static_cast<unsigned>(in[0].size() + 1), mr, vecmem::data::buffer_type::resizable);
        c.setup(b1)->wait();
        c(vecmem::get_data(in[0]), b1, known ? type::host_to_device : type::unknown)->wait();
        vecmem::vector<int> back(&h);
        c(b1, back, known ? type::device_to_host : type::unknown)->wait();
        ok = ok && back == in[0] && c.get_size(b1) == in[0].size();
        c.memset(b1, 1)->wait();
        c(b1, back, known ? type::device_to_host : type::unknown)->wait();
        ok = ok && back == vecmem::vector<int>(in[0].size(), 0x01010101, &h);
    }
    return ok;
}

void finish() {
    for (auto& e : evs) {
        call("edrop", {e.first});
        perform([&] { e.second.reset(); return 0; });
    }
    evs.clear();
    for (auto& c : cps) {
        call("cdel", {c.first});
        perform([&] { c.second.reset(); return 0; });
    }
    cps.clear();
    for (auto& b : held) {
        call("free", {b.first});
        perform([&] { res.at(b.second.r)->deallocate(b.second.p, b.second.n, b.second.al); return 0; });
    }
    held.clear();
    for (auto& r : res) {
        call("rdel", {r.first});
        perform([&] { r.second.reset(); return 0; });
    }
    res.clear();
    for (auto& w : wrs) {
        call("wdel", {w.first});
        perform([&] { w.second.reset(); return 0; });
    }
    wrs.clear();
    for (auto& q : own) {
        call("udel", {q.second.first});
        perform([&] {
            if (q.second.second) {
                q.second.second.reset();
            } else {
                mockrt::drop_stream(q.second.first);
            }
            return 0;
        });
    }
    own.clear();
    rt().all(-1);
    emit("{\"e\":\"fin\"}");
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::string line;
    bool first = true;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string b;
            std::uint64_t seed = 1;
            int n = 1;
            is >> b >> seed >> n;
            if (!first) {
                finish();
            }
            first = false;
            backend = b[0];
            rt() = runtime();
            rt().backend = backend;
            rt().r = rng(seed);
            rt().devices = n;
            places().used.clear();
            places().r = rng(seed + 1);
            places().policy = 0;
            const long long a = places().place(HOST, 64);
            host = reg().base + a;
            for (std::size_t i = 0; i < HOST; ++i) {
                host[i] = static_cast<char>(i * 7 + i / 256);
            }
            emit("{\"e\":\"R\",\"b\":\"" + b + "\",\"n\":" + num(n) + ",\"host\":" + num(a) + ",\"hn\":" + num(HOST) + "}");
            continue;
        }
        std::vector<long long> x;
        long long k;
        while (is >> k) {
            x.push_back(k);
        }
        auto id = [&](std::size_t i) { return static_cast<int>(x.at(i)); };
        auto size = [&](std::size_t i) { return static_cast<std::size_t>(x.at(i)); };
        const bool streams = backend != 'h';
        auto has = [&](std::size_t i) { return i < x.size() && wrs.count(id(i)) > 0; };
        // An address for copies: in an allocation, or in host memory.
        auto place = [&](std::size_t i, std::size_t n) -> char* {
            const std::size_t off = size(i + 1);
            if (id(i) == 0) {
                return off + n <= HOST ? host + off : nullptr;
            }
            auto b = held.find(id(i));
            return b != held.end() && b->second.p && off + n <= b->second.n ? static_cast<char*>(b->second.p) + off : nullptr;
        };
        if (op == "E") {
            faults() = fault_plan();
            for (long long v : x) {
                faults().at.push_back(static_cast<int>(v));
            }
        } else if (op == "dev") {
            if (backend != 's' && id(0) < rt().devices) {
                call(op, x);
                perform([&] { mockrt::set_device(id(0)); return 0; });
            }
        } else if (op == "res") {
            if (res.count(id(0)) || (backend == 's' && id(2) >= 0 && !has(2))) {
                continue;
            }
            call(op, x);
            perform([&] { res[id(0)] = make_resource(id(1), x[2]); return 0; });
        } else if (op == "rdel") {
            bool used = res.count(id(0)) == 0;
            for (auto& b : held) {
                used = used || b.second.r == id(0);
            }
            if (!used) {
                call(op, x);
                perform([&] { res.erase(id(0)); return 0; });
            }
        } else if (op == "alloc") {
            if (held.count(id(0)) || !res.count(id(1))) {
                continue;
            }
            call(op, x);
            perform([&] {
                void* p = res[id(1)]->allocate(size(2), size(3));
                held[id(0)] = {id(1), p, size(2), size(3)};
                return reg().pos(p);
            });
        } else if (op == "free") {
            if (held.count(id(0))) {
                const block b = held[id(0)];
                // What the client still has under way there would be lost.
                rt().all(-1);
                call(op, x);
                perform([&] { res.at(b.r)->deallocate(b.p, b.n, b.al); return 0; });
                held.erase(id(0));
            }
        } else if (op == "null") {
            if (res.count(id(0))) {
                call(op, x);
                perform([&] { res[id(0)]->deallocate(nullptr, 8, 8); return 0; });
            }
        } else if (op == "eq") {
            if (res.count(id(0)) && res.count(id(1))) {
                call(op, x);
                perform([&] { return *res[id(0)] == *res[id(1)]; });
            }
        } else if (op == "wnew") {
            if (!streams || has(0)) {
                continue;
            }
            call(op, x);
            perform([&] {
                if (backend == 's') {
                    wrs[id(0)] = std::make_unique<sycl_wrap>();
                } else if (id(1) < 0) {
                    wrs[id(0)] = std::make_unique<cuda_wrap>();
                } else {
                    wrs[id(0)] = std::make_unique<cuda_wrap>(id(1));
                }
                return wrs[id(0)]->stream();
            });
        } else if (op == "wbor") {
            if (!streams || has(0)) {
                continue;
            }
            if (!own.count(id(1))) {
                auto& q = own[id(1)];
                // Failures are for calls of the library.
                const fault_plan faulty = faults();
                faults() = fault_plan();
                call("user", {id(1)});
                perform([&] {
                    if (backend == 's') {
                        q.second = std::make_unique<::sycl::queue>();
                        q.first = q.second->id();
                    } else {
                        mockrt::make_stream(&q.first);
                    }
                    return q.first;
                });
                faults() = faulty;
            }
            auto& q = own[id(1)];
            call(op, {x[0], q.first});
            perform([&] {
                if (backend == 's') {
                    wrs[id(0)] = std::make_unique<sycl_wrap>(static_cast<void*>(q.second.get()));
                } else {
                    wrs[id(0)] = std::make_unique<cuda_wrap>(reinterpret_cast<void*>(static_cast<std::size_t>(q.first) << 8));
                }
                return wrs[id(0)]->stream();
            });
        } else if (op == "wcopy" || op == "wmove") {
            if (!has(1) || has(0)) {
                continue;
            }
            call(op, x);
            perform([&] {
                wrs[id(0)] = op == "wcopy" ? wrs[id(1)]->copy() : wrs[id(1)]->move();
                if (op == "wmove") {
                    wrs.erase(id(1));
                }
                return wrs[id(0)]->stream();
            });
        } else if (op == "wasg" || op == "wmasg") {
            if (!has(0) || !has(1)) {
                continue;
            }
            call(op, x);
            perform([&] {
                if (op == "wasg") {
                    wrs[id(0)]->assign(*wrs[id(1)]);
                } else {
                    wrs[id(0)]->move_from(*wrs[id(1)]);
                    if (x[0] != x[1]) {
                        wrs.erase(id(1));
                    }
                }
                return wrs[id(0)]->stream();
            });
        } else if (op == "wdel") {
            if (has(0)) {
                call(op, x);
                perform([&] { wrs.erase(id(0)); return 0; });
            }
        } else if (op == "wsync") {
            if (has(0) && backend == 'c') {
                call(op, x);
                perform([&] { wrs[id(0)]->sync(); return 0; });
            }
        } else if (op == "cnew") {
            const bool stateless = backend == 'h' || (backend == 'c' && x[1]);
            if (cps.count(id(0)) || (!stateless && !has(2))) {
                continue;
            }
            call(op, {x[0], stateless ? 1 : x[1], stateless ? -1 : x[2]});
            perform([&] { cps[id(0)] = make_copy(stateless || x[1], id(2)); return 0; });
        } else if (op == "cdel") {
            if (cps.count(id(0))) {
                call(op, x);
                perform([&] { cps.erase(id(0)); return 0; });
            }
        } else if (op == "copy") {
            if (!cps.count(id(0)) || evs.count(id(1))) {
                continue;
            }
            const std::size_t n = size(6);
            char *a = place(2, n), *b = place(4, n);
            if (!a || !b || (a < b + n && b < a + n && n > 0)) {
                continue;
            }
            call(op, {x[0], x[1], reg().pos(b), reg().pos(a), x[6], x[7]});
            perform([&] {
                const vecmem::data::vector_view<const char> from(static_cast<unsigned>(n), a);
                const vecmem::data::vector_view<char> to(static_cast<unsigned>(n), b);
                evs[id(1)] = (*cps[id(0)])(from, to, static_cast<vecmem::copy::type::copy_type>(x[7]));
                return evs[id(1)] ? 2 : 0;
            });
            if (evs.count(id(1)) && !evs[id(1)]) {
                evs.erase(id(1));
            }
        } else if (op == "fill") {
            if (!cps.count(id(0)) || evs.count(id(1))) {
                continue;
            }
            const std::size_t n = size(4);
            char* b = place(2, n);
            if (!b) {
                continue;
            }
            // The result is looked at below, so nothing else may write there.
            rt().settle(b, n);
            call(op, {x[0], x[1], reg().pos(b), x[5], x[4]});
            perform([&] {
                const vecmem::data::vector_view<char> to(static_cast<unsigned>(n), b);
                evs[id(1)] = cps[id(0)]->memset(to, id(5));
                // Said for those that are not fills of the run-time.
                return contents(b, n, id(5)) + (evs[id(1)] ? 2ll : 0ll);
            });
            if (evs.count(id(1)) && !evs[id(1)]) {
                evs.erase(id(1));
            }
        } else if (op == "ewait" || op == "eign" || op == "edrop") {
            if (evs.count(id(0))) {
                call(op, x);
                perform([&] {
                    if (op == "ewait") {
                        evs[id(0)]->wait();
                    } else if (op == "eign") {
                        evs[id(0)]->ignore();
                    } else {
                        evs.erase(id(0));
                    }
                    return 0;
                });
            }
        } else if (op == "jag") {
            if (!cps.count(id(0)) || !res.count(id(1))) {
                continue;
            }
            call(op, {x[0], x[1], x[2]});
            perform([&] { return round_trip(*cps[id(0)], *res[id(1)], x[2] != 0, std::vector<long long>(x.begin() + 3, x.end())); });
        } else if (!op.empty()) {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            return 3;
        }
    }
    finish();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
