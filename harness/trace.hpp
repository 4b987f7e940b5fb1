// Shared helpers of the conformance drivers: buffered ndjson output that
// survives crashes (a crash or hang becomes the last event of the trace), and
// the recording upstream memory resource.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <vector>

#include "vecmem/memory/memory_resource.hpp"

namespace vp {

// ---------------------------------------------------------------- output ---
inline std::string& buf() {
    static std::string* b = new std::string();
    return *b;
}
inline int& out_fd() {
    static int fd = 1;
    return fd;
}
inline void flush() {
    std::string& b = buf();
    const char* p = b.data();
    std::size_t n = b.size();
    while (n > 0) {
        ssize_t w = ::write(out_fd(), p, n);
        if (w <= 0) {
            break;
        }
        p += w;
        n -= static_cast<std::size_t>(w);
    }
    b.clear();
}
inline void emit(const std::string& s) {
    buf() += s;
    buf() += '\n';
    if (buf().size() > (1u << 20)) {
        flush();
    }
}
inline void on_signal(int sig) {
    static volatile sig_atomic_t once = 0;
    if (once) {
        _exit(7);
    }
    once = 1;
    flush();
    char m[80];
    int n = snprintf(m, sizeof m, "{\"e\":\"%s\",\"sig\":%d}\n",
                     sig == SIGALRM ? "hang" : "crash", sig);
    if (::write(out_fd(), m, static_cast<std::size_t>(n)) < 0) {
    }
    _exit(0);
}
inline void install_handlers(unsigned limit_s) {
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTERM}) {
        sigaction(s, &sa, nullptr);
    }
    alarm(limit_s);
}

// ------------------------------------------------------------- JSON bits ---
inline std::string num(long long v) { return std::to_string(v); }
inline long long cap(std::size_t s) {
    return s > 2147483647u ? 2147483647LL : static_cast<long long>(s);
}

// Small xorshift generator (drivers never use any other source of chance).
struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed * 2654435761u + 88172645463325252ull) {}
    std::uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s;
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
};

// ------------------------------------------------- the address "universe" ---
// One reserved region; every upstream block lies in it, and every address is
// reported as an offset into it ("position"), so that it fits TLC's integers.
struct region {
    static constexpr std::size_t size = 1900ull << 20;
    static constexpr std::size_t base_align = 1ull << 24;
    char* base = nullptr;
    region() {
        void* p = ::mmap(nullptr, size + base_align, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            std::exit(3);
        }
        std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
        a = (a + base_align - 1) & ~(base_align - 1);
        base = reinterpret_cast<char*>(a);
    }
    long long pos(const void* p) const {
        if (p == nullptr) {
            return -1;
        }
        const char* c = static_cast<const char*>(p);
        if (c < base || c >= base + size) {
            return -2;
        }
        return c - base;
    }
    void drop() { ::madvise(base, size, MADV_DONTNEED); }
};
inline region& reg() {
    static region r;
    return r;
}

// Where the recording upstream places its blocks.
struct placement {
    std::map<long long, long long> used;  // position -> size
    int policy = 0;
    rng r{1};
    long long forced = -1;
    long long overlap = -1;     // once: a block that may overlap others
    long long top = 0;          // high water mark, for policies 0 and 1
    long long low = region::size / 2;  // for descending placement

    bool is_free(long long p, long long n) const {
        if (p < 4096 || p + n > static_cast<long long>(region::size)) {
            return false;
        }
        auto it = used.lower_bound(p);
        if (it != used.end() && it->first < p + n) {
            return false;
        }
        if (it != used.begin()) {
            --it;
            if (it->first + it->second > p) {
                return false;
            }
        }
        return true;
    }
    static long long up(long long p, long long al) {
        return (p + al - 1) / al * al;
    }
    long long place(std::size_t bytes, std::size_t align) {
        if (bytes > (600ull << 20)) {
            return -1;
        }
        const long long n = static_cast<long long>(bytes);
        const long long al = static_cast<long long>(align ? align : 1);
        if (overlap >= 0) {
            const long long p = up(overlap, al);
            overlap = -1;
            return p;
        }
        if (forced >= 0) {
            long long p = forced;
            forced = -1;
            if (p % al == 0 && is_free(p, n)) {
                used[p] = n;
                return p;
            }
        }
        long long p = -1;
        switch (policy) {
            case 1: {  // directly after the last block, if alignment permits
                p = used.empty() ? 1 << 20
                                 : used.rbegin()->first + used.rbegin()->second;
                p = up(p, al);
                break;
            }
            case 2: {  // directly before the lowest block
                long long first = used.empty()
                                      ? static_cast<long long>(region::size / 2)
                                      : used.begin()->first;
                p = (first - n) / al * al;
                break;
            }
            case 3: {  // lowest free place
                p = up(4096, al);
                for (const auto& u : used) {
                    if (p + n <= u.first) {
                        break;
                    }
                    p = up(u.first + u.second, al);
                }
                break;
            }
            default: {  // scattered; aligned as asked for and no better
                for (int t = 0; t < 50; ++t) {
                    long long q = static_cast<long long>(r.below(
                        static_cast<std::uint64_t>(region::size) -
                        static_cast<std::uint64_t>(n) - 65536));
                    q = up(q + 4096, al);
                    if (q % (2 * al) == 0) {
                        q += al;
                    }
                    if (is_free(q, n)) {
                        p = q;
                        break;
                    }
                }
            }
        }
        if (p < 0 || !is_free(p, n)) {
            // Fall back to the first fit.
            p = up(4096, al);
            for (const auto& u : used) {
                if (p + n <= u.first) {
                    break;
                }
                p = up(u.first + u.second, al);
            }
            if (!is_free(p, n)) {
                return -1;
            }
        }
        used[p] = n;
        return p;
    }
};
inline placement& places() {
    static placement p;
    return p;
}

// What happened at the upstream resources during the current client call.
inline std::vector<std::string>& ups() {
    static std::vector<std::string> u;
    return u;
}
inline std::string take_ups() {
    std::string s = "[";
    bool first = true;
    for (const std::string& u : ups()) {
        if (!first) {
            s += ',';
        }
        first = false;
        s += u;
    }
    s += ']';
    ups().clear();
    return s;
}

// Countdown to failing upstream allocations.
struct fault_plan {
    std::vector<int> at;  // fail when the counter of calls reaches these
    int calls = 0;
    bool fail_now() {
        ++calls;
        for (int a : at) {
            if (a == calls) {
                return true;
            }
        }
        return false;
    }
};
inline fault_plan& faults() {
    static fault_plan f;
    return f;
}
// Per-upstream "always fails" switch.
inline std::vector<bool>& broken() {
    static std::vector<bool> b(8, false);
    return b;
}

// How long the upstream resources took, for those who measure it.
struct stopwatch {
    using clock = std::chrono::high_resolution_clock;
    bool on = false;
    int calls = 0;
    long long spent = 0;
    static long long since(clock::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(clock::now() - t).count(); }
    struct lap {
        stopwatch& w;
        clock::time_point t;
        explicit lap(stopwatch& x) : w(x) {
            if (w.on) {
                t = clock::now();
                // Long enough to be told from the rest now and then.
                const long long busy = ++w.calls % 8 == 0 ? 100000 : 0;
                while (since(t) < busy) {
                }
            }
        }
        ~lap() {
            if (w.on) { w.spent += since(t); }
        }
    };
};
inline stopwatch& watch() {
    static stopwatch w;
    return w;
}
class upstream : public vecmem::memory_resource {
public:
    explicit upstream(int n) : m_n(n) {}
    int n() const { return m_n; }

private:
    void* do_allocate(std::size_t bytes, std::size_t align) override {
        const stopwatch::lap lap(watch());
        const std::string head = "{\"k\":\"a\",\"n\":" + num(m_n) +
                                 ",\"sz\":" + num(cap(bytes)) +
                                 ",\"al\":" + num(cap(align));
        bool fail = faults().fail_now() || broken()[static_cast<std::size_t>(m_n)];
        long long p = -1;
        if (!fail && bytes == 0) {
            // As VecMem's own resources do.
            ups().push_back(head + ",\"r\":\"ok\",\"a\":-1}");
            return nullptr;
        }
        if (!fail) {
            p = places().place(bytes, align);
        }
        if (p < 0) {
            ups().push_back(head + ",\"r\":\"bad\",\"a\":-1}");
            throw std::bad_alloc();
        }
        ups().push_back(head + ",\"r\":\"ok\",\"a\":" + num(p) + "}");
        return reg().base + p;
    }
    void do_deallocate(void* ptr, std::size_t bytes, std::size_t align) override {
        const stopwatch::lap lap(watch());
        long long p = reg().pos(ptr);
        ups().push_back("{\"k\":\"d\",\"n\":" + num(m_n) + ",\"sz\":" +
                        num(cap(bytes)) + ",\"al\":" + num(cap(align)) +
                        ",\"r\":\"ok\",\"a\":" + num(p) + "}");
        places().used.erase(p);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
    int m_n;
};

inline void reset_world(int policy, std::uint64_t seed) {
    places() = placement();
    places().policy = policy;
    places().r = rng(seed);
    faults() = fault_plan();
    for (std::size_t i = 0; i < broken().size(); ++i) {
        broken()[i] = false;
    }
    ups().clear();
}

}  // namespace vp
