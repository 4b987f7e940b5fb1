// See sched.hpp.  This file must not be compiled with -fsanitize=thread.
#include "sched.hpp"

#include <sys/mman.h>
#include <ucontext.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_set>

namespace sched {
namespace {
struct range {
    const char* p;
    std::size_t n;
    int tag;
};
std::vector<range> g_ranges;
struct fiber {
    ucontext_t c;
    char* stack = nullptr;
    bool done = true;
    std::vector<access> acc;
};
constexpr std::size_t kStack = 256 << 10;
std::vector<fiber*> g_fibers;
std::size_t g_n = 0;
ucontext_t g_main;
int g_cur = -1;
const program* g_prog = nullptr;
std::vector<std::string> g_hist;

// The schedule.
struct choice {
    int n, taken;
};
std::vector<choice> g_choices;
std::size_t g_at = 0;
int g_preempt = 0, g_budget = 0;
long g_steps = 0, g_alone = 0;
bool g_random = false, g_hung = false;
std::uint64_t g_rng = 1;
std::uint64_t rnd() {
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng;
}
int choose(int n) {
    if (n <= 1) {
        return 0;
    }
    if (g_random) {
        return static_cast<int>(rnd() % static_cast<std::uint64_t>(n));
    }
    if (g_at < g_choices.size()) {
        return g_choices[g_at++].taken;
    }
    g_choices.push_back({n, 0});
    ++g_at;
    return 0;
}
void switch_to(int t) {
    const int from = g_cur;
    g_cur = t;
    if (from == t) {
        return;
    }
    if (from < 0) {
        swapcontext(&g_main, &g_fibers[static_cast<std::size_t>(t)]->c);
    } else {
        swapcontext(&g_fibers[static_cast<std::size_t>(from)]->c, &g_fibers[static_cast<std::size_t>(t)]->c);
    }
}
std::vector<int> runnable(int except) {
    std::vector<int> r;
    for (std::size_t i = 0; i < g_n; ++i) {
        if (!g_fibers[i]->done && static_cast<int>(i) != except) {
            r.push_back(static_cast<int>(i));
        }
    }
    return r;
}
void to_main() {
    const int from = g_cur;
    g_cur = -1;
    swapcontext(&g_fibers[static_cast<std::size_t>(from)]->c, &g_main);
}
void entry(int t) {
    g_prog->threads[static_cast<std::size_t>(t)]();
    g_fibers[static_cast<std::size_t>(t)]->done = true;
    const std::vector<int> r = runnable(t);
    if (r.empty()) {
        to_main();
    } else {
        g_alone = 0;
        switch_to(r[static_cast<std::size_t>(choose(static_cast<int>(r.size())))]);
    }
    std::abort();
}
void pause() {
    if (++g_steps > 20000) {
        g_hung = true;
        to_main();                  // never to come back
    }
    const std::vector<int> r = runnable(g_cur);
    if (r.empty()) {
        return;
    }
    if (++g_alone > 60) {           // it may be waiting for another one
        g_alone = 0;
        switch_to(r[static_cast<std::size_t>(g_steps) % r.size()]);
        return;
    }
    if (g_random) {
        if (rnd() % 3 == 0) {
            g_alone = 0;
            switch_to(r[rnd() % r.size()]);
        }
        return;
    }
    if (g_budget <= 0) {
        return;
    }
    const int k = choose(static_cast<int>(r.size()) + 1);
    if (k > 0) {
        --g_budget;
        g_alone = 0;
        switch_to(r[static_cast<std::size_t>(k - 1)]);
    }
}
const range* find(const void* p, std::size_t n) {
    const char* c = static_cast<const char*>(p);
    for (const range& r : g_ranges) {
        if (c < r.p + r.n && c + n > r.p) {
            return &r;
        }
    }
    return nullptr;
}
void run_once() {
    g_hist.clear();
    g_at = 0;
    g_steps = g_alone = 0;
    g_budget = g_preempt;
    g_hung = false;
    g_prog->reset();
    g_n = g_prog->threads.size();
    while (g_fibers.size() < g_n) {
        fiber* f = new fiber();
        f->stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        g_fibers.push_back(f);
    }
    for (std::size_t i = 0; i < g_n; ++i) {
        fiber* f = g_fibers[i];
        getcontext(&f->c);
        f->c.uc_stack.ss_sp = f->stack;
        f->c.uc_stack.ss_size = kStack;
        f->c.uc_link = nullptr;
        makecontext(&f->c, reinterpret_cast<void (*)()>(entry), 1, static_cast<int>(i));
        f->done = false;
        f->acc.clear();
    }
    if (g_n > 0) {
        switch_to(choose(static_cast<int>(g_n)));
    }
    g_cur = -1;
    if (g_hung) {
        g_hist.push_back("{\"e\":\"hang\"}");
    } else {
        g_prog->finish();
    }
}
bool backtrack() {
    g_choices.resize(g_at < g_choices.size() ? g_at : g_choices.size());
    while (!g_choices.empty()) {
        choice& c = g_choices.back();
        if (++c.taken < c.n) {
            return true;
        }
        g_choices.pop_back();
    }
    return false;
}
}  // namespace

void share(const void* p, std::size_t n, int tag) {
    g_ranges.push_back({static_cast<const char*>(p), n, tag});
}
void unshare_all() {
    g_ranges.clear();
}
int self() {
    return g_cur;
}
void event(const std::string& s) {
    g_hist.push_back(s);
}
std::vector<access> take_accesses() {
    std::vector<access> r;
    if (g_cur >= 0) {
        r.swap(g_fibers[static_cast<std::size_t>(g_cur)]->acc);
    }
    return r;
}
void touch(const void* p, std::size_t n, char kind, int order) {
    if (g_cur < 0) {
        return;
    }
    const range* r = find(p, n);
    if (r == nullptr) {
        return;
    }
    (void)kind;
    (void)order;
    pause();
}
void record(const void* p, char kind, int order) {
    if (g_cur < 0) {
        return;
    }
    const range* r = p ? find(p, 1) : nullptr;
    if (p != nullptr && r == nullptr) {
        return;
    }
    std::vector<access>& a = g_fibers[static_cast<std::size_t>(g_cur)]->acc;
    if (a.size() < 200) {
        a.push_back({kind, order, r ? r->tag : -1, r ? static_cast<long>(static_cast<const char*>(p) - r->p) : 0});
    }
}

result explore(const program& p, const limits& l) {
    result res;
    std::unordered_set<std::string> seen;
    g_prog = &p;
    auto keep = [&] {
        ++res.executions;
        std::string key;
        for (const std::string& s : g_hist) {
            key += s;
            key += '\n';
        }
        if (seen.insert(key).second) {
            res.histories.push_back(g_hist);
        }
    };
    g_random = false;
    res.complete = true;
    for (int b = 0; b <= l.preemptions; ++b) {
        g_preempt = b;
        g_choices.clear();
        for (;;) {
            if (res.executions >= l.executions) {
                res.complete = false;
                break;
            }
            run_once();
            keep();
            if (!backtrack()) {
                break;
            }
        }
        if (!res.complete) {
            break;
        }
    }
    g_random = true;
    g_rng = l.seed * 2654435761u + 88172645463325252ull;
    for (int i = 0; i < l.random; ++i) {
        run_once();
        keep();
    }
    g_random = false;
    g_prog = nullptr;
    return res;
}
}  // namespace sched

// ------------------------------------------------ the instrumentation's calls
namespace sched {
void touch(const void*, std::size_t, char, int);
void record(const void*, char, int);
}
namespace sched {
bool spurious() {
    static unsigned long n = 0;
    return g_cur >= 0 && g_random && (++n % 3 == 0);
}
}
#define PLAIN(N)                                                                       \
    extern "C" void __tsan_read##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); }          \
    extern "C" void __tsan_write##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); }         \
    extern "C" void __tsan_unaligned_read##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); }  \
    extern "C" void __tsan_unaligned_write##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); } \
    extern "C" void __tsan_volatile_read##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); }   \
    extern "C" void __tsan_volatile_write##N(void* p) { sched::touch(p, N, 'p', 0); sched::record(p, 'p', 0); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
void __tsan_read_range(void* p, std::size_t n) { sched::touch(p, n, 'p', 0); sched::record(p, 'p', 0); }
void __tsan_write_range(void* p, std::size_t n) { sched::touch(p, n, 'p', 0); sched::record(p, 'p', 0); }
void __tsan_atomic_thread_fence(int mo) { sched::record(nullptr, '|', mo); }
void __tsan_atomic_signal_fence(int) {}
}
#define ATOMIC(B, T)                                                                                               \
    extern "C" T __tsan_atomic##B##_load(const volatile T* p, int mo) {                                            \
        sched::touch(const_cast<const T*>(p), sizeof(T), 'a', mo);                                                 \
        sched::record(const_cast<const T*>(p), 'a', mo);                                                           \
        return *p;                                                                                                 \
    }                                                                                                              \
    extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                                         \
        sched::touch(const_cast<T*>(p), sizeof(T), 'a', mo);                                                       \
        sched::record(const_cast<T*>(p), 'a', mo);                                                                 \
        *p = v;                                                                                                    \
    }                                                                                                              \
    extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                         \
        sched::touch(const_cast<T*>(p), sizeof(T), 'a', mo);                                                       \
        sched::record(const_cast<T*>(p), 'a', mo);                                                                 \
        T o = *p;                                                                                                  \
        *p = v;                                                                                                    \
        return o;                                                                                                  \
    }                                                                                                              \
    RMW(B, T, add, o + v) RMW(B, T, sub, o - v) RMW(B, T, and, o& v) RMW(B, T, or, o | v) RMW(B, T, xor, o ^ v)    \
    RMW(B, T, nand, ~(o & v))                                                                                      \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {         \
        sched::touch(const_cast<T*>(p), sizeof(T), 'a', mo);                                                       \
        const T o = *p;                                                                                            \
        if (o == *e) {                                                                                             \
            sched::record(const_cast<T*>(p), 'a', mo);                                                             \
            *p = v;                                                                                                \
            return 1;                                                                                              \
        }                                                                                                          \
        sched::record(const_cast<T*>(p), 'f', fmo);                                                                \
        *e = o;                                                                                                    \
        return 0;                                                                                                  \
    }                                                                                                              \
   /* A weak one may fail without a reason, which the scheduler decides. */                                       \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {           \
        sched::touch(const_cast<T*>(p), sizeof(T), 'a', mo);                                                       \
        const T o = *p;                                                                                            \
        if (o == *e && !sched::spurious()) {                                                                       \
            sched::record(const_cast<T*>(p), 'a', mo);                                                             \
            *p = v;                                                                                                \
            return 1;                                                                                              \
        }                                                                                                          \
        sched::record(const_cast<T*>(p), 'f', fmo);                                                                \
        *e = o;                                                                                                    \
        return 0;                                                                                                  \
    }                                                                                                              \
    extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {               \
        __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo);                                             \
        return e;                                                                                                  \
    }
#define RMW(B, T, NAME, EXPR)                                                     \
    extern "C" T __tsan_atomic##B##_fetch_##NAME(volatile T* p, T v, int mo) {    \
        sched::touch(const_cast<T*>(p), sizeof(T), 'a', mo);                      \
        sched::record(const_cast<T*>(p), 'a', mo);                                \
        const T o = *p;                                                           \
        *p = static_cast<T>(EXPR);                                                \
        return o;                                                                 \
    }
typedef unsigned char vp_u8;
typedef unsigned short vp_u16;
typedef unsigned int vp_u32;
typedef unsigned long vp_u64;
ATOMIC(8, vp_u8)
ATOMIC(16, vp_u16)
ATOMIC(32, vp_u32)
ATOMIC(64, vp_u64)
