// Host and "device" memory, and a copy object, for the copy drivers: device
// memory cannot be accessed except by the copy object's transfers, and these
// may be carried out late.
#pragma once
#include <deque>

#include "elements.hpp"
#include "vecmem/utils/abstract_event.hpp"
#include "vecmem/utils/copy.hpp"

namespace vp {
// ------------------------------------------------------------------ heap ---
// Blocks of the ordinary heap that were allocated during library calls.
struct heap_block {
    std::size_t n;
    long serial;
};
template <typename T>
struct raw_alloc {
    using value_type = T;
    raw_alloc() = default;
    template <typename U>
    raw_alloc(const raw_alloc<U>&) {}
    T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    bool operator==(const raw_alloc&) const { return true; }
    bool operator!=(const raw_alloc&) const { return false; }
};
using heap_map = std::map<const char*, heap_block, std::less<const char*>, raw_alloc<std::pair<const char* const, heap_block>>>;
inline heap_map& heap() {
    static heap_map m;
    return m;
}
inline bool& tracking() {
    static bool t = false;
    return t;
}
inline long& serials() {
    static long s = 0;
    return s;
}
inline void* heap_new(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    if (tracking()) {
        tracking() = false;
        heap()[static_cast<char*>(p)] = {n, ++serials()};
        std::memset(p, 0xC9, n);
        tracking() = true;
    }
    return p;
}
inline void heap_delete(void* p) {
    if (p != nullptr && !heap().empty()) {
        auto i = heap().find(static_cast<char*>(p));
        if (i != heap().end()) {
            std::memset(p, 0xDD, i->second.n);
            heap().erase(i);
        }
    }
    std::free(p);
}

// ---------------------------------------------------------------- arenas ---
struct arena : vecmem::memory_resource {
    static constexpr std::size_t bytes = 48u << 20;
    static constexpr std::size_t margin = 96;
    int id;                          // 0: host, 1: device
    bool closed = false;
    char *base, *next;
    struct block {
        std::size_t n, al;
        long serial;
    };
    std::map<const char*, block> live;
    int bad = 0;                     // wrong deallocations
    std::uint64_t salt = 1;
    explicit arena(int i) : id(i) {
        void* p = ::mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            std::exit(3);
        }
        base = static_cast<char*>(p);
        next = base + 4096;
    }
    bool has(const void* p) const { return p >= base && p < base + bytes; }
    std::size_t used() const { return (static_cast<std::size_t>(next - base) + margin + 8191) / 4096 * 4096; }
    std::size_t shut = 0;
    void close() {
        if (id == 1 && !closed) {
            shut = bytes;
            ::mprotect(base, shut, PROT_NONE);
            closed = true;
        }
    }
    void open() {
        if (closed) {
            ::mprotect(base, shut, PROT_READ | PROT_WRITE);
            closed = false;
        }
    }
    void restart(std::uint64_t seed) {
        open();
        next = base + 4096;
        live.clear();
        bad = 0;
        salt = seed * 77 + 13;
    }
    const std::pair<const char* const, block>* find(const void* p) const {
        auto i = live.upper_bound(static_cast<const char*>(p));
        if (i == live.begin()) {
            return nullptr;
        }
        --i;
        return p < i->first + (i->second.n ? i->second.n : 1) ? &*i : nullptr;
    }
    long long pos(const void* p) const { return static_cast<const char*>(p) - base + id * 500000000ll; }
    bool intact() {
        for (const auto& b : live) {
            for (std::size_t i = 1; i <= margin; ++i) {
                if (static_cast<unsigned char>(b.first[-static_cast<long>(i)]) != 0xA5 || static_cast<unsigned char>(b.first[b.second.n + i - 1]) != 0xA5) {
                    return false;
                }
            }
        }
        return true;
    }
    struct opened;

private:
    void* do_allocate(std::size_t n, std::size_t al) override;
    void do_deallocate(void* p, std::size_t n, std::size_t al) override;
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }
};
struct arena::opened {
    arena& a;
    bool was;
    explicit opened(arena& x) : a(x), was(x.closed) { a.open(); }
    ~opened() {
        if (was) {
            a.close();
        }
    }
};
inline arena& host_mem() {
    static arena a(0);
    return a;
}
inline arena& dev_mem() {
    static arena a(1);
    return a;
}
struct untracked {
    bool was = tracking();
    untracked() { tracking() = false; }
    ~untracked() { tracking() = was; }
};
inline void* arena::do_allocate(std::size_t n, std::size_t al) {
    untracked u;
    opened o(*this);
    if (n > bytes / 4) {
        throw std::bad_alloc();
    }
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(next) + margin;
    a = (a + al - 1) / al * al;
    if (a % (2 * al) == 0) {
        a += al;
    }
    char* p = reinterpret_cast<char*>(a);
    if (p + n + margin + 8192 > base + bytes) {
        std::fprintf(stderr, "arena exhausted\n");
        std::exit(3);
    }
    next = p + n + margin;
    std::memset(p - margin, 0xA5, margin);
    std::memset(p + n, 0xA5, margin);
    for (std::size_t i = 0; i < n; ++i) {
        salt = salt * 6364136223846793005ull + 1442695040888963407ull;
        p[i] = static_cast<char>(salt >> 56);
    }
    live[p] = {n, al, ++serials()};
    ups().push_back("[\"a\"," + num(id) + "," + num(pos(p)) + "," + num(static_cast<long long>(n)) + "]");
    return p;
}

// ------------------------------------------------------------------ copy ---
enum how { h2d = 0, d2h = 1, h2h = 2, d2d = 3, unknown = 4 };
struct mock_copy : vecmem::copy {
    struct transfer {
        bool fill;
        std::size_t n;
        const void* from;
        void* to;
        int value;
        long sfrom, sto;             // who the memory belonged to
        long call;
    };
    struct state {
        std::deque<transfer> queue;
        long issued = 0, done = 0;
        int mode = 0;                // 0: at once, 1: as late as possible, 2: at any time
        rng r{1};
        std::vector<std::string> log;
        int oob = 0, dead = 0;
    };
    static state& st() {
        static state s;
        return s;
    }
    // The owner of some memory: 0: not known.
    static long owner(const void* p, std::size_t n, bool& out) {
        out = false;
        for (arena* a : {&host_mem(), &dev_mem()}) {
            if (a->has(p)) {
                const auto* b = a->find(p);
                if (b == nullptr || static_cast<const char*>(p) + n > b->first + b->second.n) {
                    out = true;
                    return -1;
                }
                return b->second.serial;
            }
        }
        auto i = heap().upper_bound(static_cast<const char*>(p));
        if (i != heap().begin()) {
            --i;
            if (p < i->first + i->second.n) {
                out = static_cast<const char*>(p) + n > i->first + i->second.n;
                return i->second.serial;
            }
        }
        return 0;
    }
    // Local variables of library calls that have returned.
    static bool on_dead_stack(const void* p, long call) {
        const char* c = static_cast<const char*>(p);
        const char* here = static_cast<const char*>(__builtin_frame_address(0));
        const char* top = call == calls().now ? here : calls().top;
        return c < top && c > top - (1l << 20);
    }
    struct call_state {
        long now = 0, count = 0;
        const char* top = nullptr;
    };
    static call_state& calls() {
        static call_state c;
        return c;
    }
    static void run_one() {
        state& s = st();
        const transfer t = s.queue.front();
        s.queue.pop_front();
        ++s.done;
        bool out = false;
        const bool gone = (!t.fill && (owner(t.from, t.n, out) != t.sfrom || on_dead_stack(t.from, t.call))) || owner(t.to, t.n, out) != t.sto || on_dead_stack(t.to, t.call);
        if (gone) {
            ++s.dead;
            return;
        }
        arena::opened o(dev_mem());
        if (t.fill) {
            std::memset(t.to, t.value, t.n);
        } else {
            std::memcpy(t.to, t.from, t.n);
        }
    }
    static void run_until(long k) {
        untracked u;
        while (st().done < k) {
            run_one();
        }
    }
    struct event : vecmem::abstract_event {
        long upto;
        explicit event(long k) : upto(k) {}
        void wait() override { run_until(upto); }
        void ignore() override {}
    };
    static void issue(transfer t) {
        state& s = st();
        bool o1 = false, o2 = false;
        t.sfrom = t.fill ? 0 : owner(t.from, t.n, o1);
        t.sto = owner(t.to, t.n, o2);
        t.call = calls().now;
        if (o1 || o2) {
            ++s.oob;
            return;
        }
        s.queue.push_back(t);
        ++s.issued;
        if (s.mode == 0) {
            run_until(s.issued);
        } else if (s.mode == 2) {
            run_until(s.done + static_cast<long>(s.r.below(s.queue.size() + 1)));
        }
    }
    void do_copy(std::size_t n, const void* from, void* to, type::copy_type h) const override {
        untracked u;
        st().log.push_back("[" + num(h) + "," + num(n == 0 ? 2 : dev_mem().has(from)) + "," + num(n == 0 ? 2 : dev_mem().has(to)) + "]");
        if (n > 0) {
            issue({false, n, from, to, 0, 0, 0, 0});
        }
    }
    void do_memset(std::size_t n, void* to, int v) const override {
        untracked u;
        if (n > 0) {
            issue({true, n, nullptr, to, v, 0, 0, 0});
        }
    }
    event_type create_event() const override {
        untracked u;
        state& s = st();
        if (s.mode == 2) {
            run_until(s.done + static_cast<long>(s.r.below(s.queue.size() + 1)));
        }
        return std::make_unique<event>(s.issued);
    }
};
inline void arena::do_deallocate(void* p, std::size_t n, std::size_t al) {
    untracked u;
    ups().push_back("[\"d\"," + num(id) + "," + num(pos(p)) + "," + num(static_cast<long long>(n)) + "]");
    auto i = live.find(static_cast<char*>(p));
    if (i == live.end() || i->second.n != n || i->second.al != al) {
        ++bad;
        return;
    }
    opened o(*this);
    std::memset(p, 0xDD, n);
    live.erase(i);
}
// Library code runs between these: what it allocates is followed, and device
// memory is out of reach.
struct library {
    __attribute__((noinline)) library() {
        dev_mem().close();
        auto& c = mock_copy::calls();
        c.now = ++c.count;
        c.top = static_cast<const char*>(__builtin_frame_address(0)) + 16;
        tracking() = true;
    }
    ~library() {
        tracking() = false;
        mock_copy::calls().now = 0;
        heap().clear();
    }
};

// ---------------------------------------------------------------- values ---
// Every byte of an element depends on its value.
inline unsigned char byte_of(int v, std::size_t k) { return static_cast<unsigned char>(k == 0 ? v : v * 31 + static_cast<int>(k) * 17 + 5); }
inline void raw_put(void* p, std::size_t n, int v) {
    for (std::size_t k = 0; k < n; ++k) {
        static_cast<unsigned char*>(p)[k] = byte_of(v, k);
    }
}
inline int fill_value(std::size_t n, int b) { return n == 1 ? (b & 255) : 1000 + (b & 255); }
inline int raw_get(const void* p, std::size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    if (n == 1) {
        return c[0];
    }
    bool same = true, pat = true;
    std::uint32_t h = 2166136261u;
    for (std::size_t k = 0; k < n; ++k) {
        same = same && c[k] == c[0];
        pat = pat && c[k] == byte_of(c[0], k);
        h = (h ^ c[k]) * 16777619u;
    }
    return pat ? c[0] : same ? 1000 + c[0] : static_cast<int>(10000 + h % 900000);
}
template <typename T>
inline T with_value(int v) {
    T x;
    raw_put(&x, sizeof(T), v);
    return x;
}
}  // namespace vp
