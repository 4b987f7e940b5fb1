// Conformance driver for the memory resources: interprets a script (see
// DESIGN.md), and records everything that is visible at the client's side and
// at the upstream side of the (stack of) resource(s) as one event per call.
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <type_traits>

#include <malloc.h>

#include "trace.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
#include "vecmem/utils/memory_monitor.hpp"

// --- what the C library really gave for a block of host memory ---
// The blocks taken from it while a resource serves a request are remembered,
// so that it can be told whether all of the requested bytes can be used.
extern "C" {
void* __libc_malloc(std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void __libc_free(void*);
}
namespace system_blocks {
struct block {
    char* p;
    std::size_t n;
};
constexpr std::size_t max = 1 << 14;
block blocks[max];
std::size_t count = 0;
bool on = false;
void forget(void* p) {
    for (std::size_t i = 0; i < count; ++i) {
        if (blocks[i].p == p) {
            blocks[i] = blocks[--count];
            return;
        }
    }
}
void* note(void* p, std::size_t n) {
    if (on && (p != nullptr) && (count < max)) {
        forget(p);
        blocks[count++] = {static_cast<char*>(p), malloc_usable_size(p) < n ? malloc_usable_size(p) : n};
    }
    return p;
}
// Bytes available from p on, or -1 if it is not known.
long long available(void* q) {
    char* p = static_cast<char*>(q);
    for (std::size_t i = 0; i < count; ++i) {
        if (blocks[i].p <= p && p < blocks[i].p + blocks[i].n) {
            return static_cast<long long>(std::min<std::size_t>(static_cast<std::size_t>(blocks[i].p + blocks[i].n - p), 2147483647u));
        }
    }
    return -1;
}
}  // namespace system_blocks
extern "C" {
void* malloc(std::size_t n) {
    return system_blocks::note(__libc_malloc(n), n);
}
void* aligned_alloc(std::size_t a, std::size_t n) {
    return system_blocks::note(__libc_memalign(a, n), n);
}
int posix_memalign(void** r, std::size_t a, std::size_t n) {
    void* p = __libc_memalign(a, n);
    if (p == nullptr) {
        return 12;
    }
    *r = system_blocks::note(p, n);
    return 0;
}
void free(void* p) {
    if (p != nullptr) {
        system_blocks::forget(p);
    }
    __libc_free(p);
}
}

using namespace vp;
using MR = vecmem::memory_resource;

namespace {

int g_choice = 0;
bool g_pred = true;

std::vector<std::string>& hooklog() {
    static std::vector<std::string> h;
    return h;
}
std::string take_hooks() {
    std::string s = "[";
    for (std::size_t i = 0; i < hooklog().size(); ++i) {
        s += (i ? "," : "") + hooklog()[i];
    }
    hooklog().clear();
    return s + "]";
}

// --- positions: the region's, or a (high, low) pair for real host memory ---
bool g_host_addresses = false;
std::string addr(const void* p) {
    if (!g_host_addresses) {
        return num(reg().pos(p));
    }
    const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    return "[" + num(static_cast<long long>(a >> 24)) + "," +
           num(static_cast<long long>(a & 0xffffff)) + "]";
}

struct node {
    virtual ~node() = default;
    virtual MR& get() = 0;
    virtual void move_construct() = 0;
    virtual void move_assign() = 0;
};
template <typename R>
struct node_t : node {
    std::function<R*()> make;
    std::unique_ptr<R> r;
    explicit node_t(std::function<R*()> m) : make(m), r(m()) {}
    MR& get() override { return *r; }
    void move_construct() override {
        std::unique_ptr<R> n(new R(std::move(*r)));
        r = std::move(n);
    }
    void move_assign() override {
        std::unique_ptr<R> n(make());
        if constexpr (std::is_move_assignable_v<R>) {
            *n = std::move(*r);
        } else {
            return;
        }
        r = std::move(n);
    }
};
struct up_node : node {
    upstream u;
    explicit up_node(int n) : u(n) {}
    MR& get() override { return u; }
    void move_construct() override {}
    void move_assign() override {}
};
template <typename R>
struct plain_node : node {  // neither movable nor assignable in a useful way
    R r;
    MR& get() override { return r; }
    void move_construct() override {}
    void move_assign() override {}
};

struct world {
    std::vector<std::unique_ptr<node>> nodes;  // children before parents
    vecmem::instrumenting_memory_resource* instr() {
        auto* n = dynamic_cast<node_t<vecmem::instrumenting_memory_resource>*>(
            nodes.back().get());
        return n ? n->r.get() : nullptr;
    }
};

// The times of a call on an instrumenting resource, in ns: what its upstream
// took, what the last event says, what it took altogether.
struct timed {
    vecmem::instrumenting_memory_resource* ins;
    stopwatch::clock::time_point t;
    std::chrono::steady_clock::time_point steady;
    static std::string upto(long long n) { return num(std::min(n, 2000000000ll)); }
    explicit timed(vecmem::instrumenting_memory_resource* i) : ins(i) {
        watch().on = ins != nullptr;
        watch().spent = 0;
        steady = std::chrono::steady_clock::now();
        t = stopwatch::clock::now();
    }
    std::string str() const {
        const long long all = stopwatch::since(t);
        const long long same = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - steady).count();
        watch().on = false;
        // Nothing is said if the clock was set.
        if (ins == nullptr || all < 0 || all > same + same / 200 + 500) {
            return "";
        }
        const auto& e = ins->get_events();
        return ",\"tm\":[" + upto(watch().spent) + "," + (e.empty() ? "-1" : upto(static_cast<long long>(std::min<std::size_t>(e.back().m_time, 2000000000u)))) + "," + upto(all) + "]";
    }
};

struct parser {
    const std::string& s;
    std::size_t i = 0;
    world& w;
    parser(const std::string& str, world& wo) : s(str), w(wo) {}

    std::vector<std::size_t> nums() {
        std::vector<std::size_t> v;
        if (i < s.size() && s[i] == '[') {
            ++i;
            while (s[i] != ']') {
                v.push_back(std::strtoull(&s[i], nullptr, 10));
                while (s[i] != ',' && s[i] != ']') {
                    ++i;
                }
                if (s[i] == ',') {
                    ++i;
                }
            }
            ++i;
        }
        return v;
    }
    std::vector<MR*> kids() {
        std::vector<MR*> v;
        if (i < s.size() && s[i] == '(') {
            ++i;
            while (s[i] != ')') {
                v.push_back(&parse());
                if (s[i] == ',') {
                    ++i;
                }
            }
            ++i;
        }
        return v;
    }
    template <typename R, typename F>
    MR& add(F f) {
        w.nodes.push_back(std::make_unique<node_t<R>>(std::function<R*()>(f)));
        return w.nodes.back()->get();
    }
    MR& parse() {
        using namespace vecmem;
        const char c = s[i++];
        if (c == 'U') {
            const int n = s[i++] - '0';
            for (auto& x : w.nodes) {
                auto* u = dynamic_cast<up_node*>(x.get());
                if (u && u->u.n() == n) {
                    return u->get();
                }
            }
            w.nodes.push_back(std::make_unique<up_node>(n));
            return w.nodes.back()->get();
        }
        const std::vector<std::size_t> o = nums();
        const std::vector<MR*> k = kids();
        switch (c) {
            case 'H':
                w.nodes.push_back(std::make_unique<plain_node<host_memory_resource>>());
                return w.nodes.back()->get();
            case 'T':
                w.nodes.push_back(std::make_unique<plain_node<terminal_memory_resource>>());
                return w.nodes.back()->get();
            case 'I':
                return add<identity_memory_resource>([=] { return new identity_memory_resource(*k[0]); });
            case 'S':
                return add<synchronized_memory_resource>([=] { return new synchronized_memory_resource(*k[0]); });
            case 'G':
                return add<debug_memory_resource>([=] { return new debug_memory_resource(*k[0]); });
            case 'N':
                return add<instrumenting_memory_resource>([=] { return new instrumenting_memory_resource(*k[0]); });
            case 'B':
                return add<binary_page_memory_resource>([=] { return new binary_page_memory_resource(*k[0]); });
            case 'A':
                return add<arena_memory_resource>([=] { return new arena_memory_resource(*k[0], o.at(0), o.at(1)); });
            case 'C':
                return add<contiguous_memory_resource>([=] { return new contiguous_memory_resource(*k[0], o.at(0)); });
            case 'P':
                return add<pool_memory_resource>([=] {
                    pool_memory_resource::options p;
                    if (o.size() >= 10) {
                        p.min_blocks_per_chunk = o[0];
                        p.min_bytes_per_chunk = o[1];
                        p.max_blocks_per_chunk = o[2];
                        p.max_bytes_per_chunk = o[3];
                        p.smallest_block_size = o[4];
                        p.largest_block_size = o[5];
                        p.alignment = o[6];
                        p.cache_oversized = (o[7] != 0);
                        p.cached_size_cutoff_factor = o[8];
                        p.cached_alignment_cutoff_factor = o[9];
                    }
                    return o.empty() ? new pool_memory_resource(*k[0])
                                     : new pool_memory_resource(*k[0], p);
                });
            case 'X':
                return add<choice_memory_resource>([=] {
                    return new choice_memory_resource([k](std::size_t sz, std::size_t al) -> MR& {
                        ups().push_back("{\"k\":\"q\",\"n\":" + num(g_choice) + ",\"sz\":" + num(cap(sz)) +
                                        ",\"al\":" + num(cap(al)) + ",\"r\":\"ok\",\"a\":-1}");
                        return *k.at(static_cast<std::size_t>(g_choice) % k.size());
                    });
                });
            case 'Q':
                return add<conditional_memory_resource>([=] {
                    return new conditional_memory_resource(*k[0], [](std::size_t sz, std::size_t al) {
                        ups().push_back("{\"k\":\"q\",\"n\":" + num(g_pred ? 1 : 0) + ",\"sz\":" + num(cap(sz)) +
                                        ",\"al\":" + num(cap(al)) + ",\"r\":\"ok\",\"a\":-1}");
                        return g_pred;
                    });
                });
            case 'L':
                return add<coalescing_memory_resource>([=] {
                    std::vector<std::reference_wrapper<MR>> v;
                    for (MR* m : k) {
                        v.push_back(*m);
                    }
                    return new coalescing_memory_resource(std::move(v));
                });
            default:
                std::cerr << "bad expression " << s << std::endl;
                std::exit(3);
        }
    }
};

std::size_t parse_size(const std::string& t) {
    if (t[0] == '~') {
        return static_cast<std::size_t>(-1) - std::strtoull(t.c_str() + 1, nullptr, 10);
    }
    if (t[0] == '^') {
        char* e = nullptr;
        std::size_t k = std::strtoull(t.c_str() + 1, &e, 10);
        std::size_t v = static_cast<std::size_t>(1) << k;
        return v + static_cast<std::size_t>(std::strtoll(e, nullptr, 10));
    }
    return std::strtoull(t.c_str(), nullptr, 10);
}

// Fill pattern of live blocks.
unsigned char pat(int id, std::size_t i) {
    return static_cast<unsigned char>(id * 37 + static_cast<int>(i) * 11 + 5);
}
template <typename F>
void sampled(std::size_t n, F f) {
    if (n <= 512) {
        for (std::size_t i = 0; i < n; ++i) {
            f(i);
        }
    } else {
        for (std::size_t i = 0; i < 96; ++i) {
            f(i);
        }
        for (std::size_t i = 96; i < n - 96; i += (n / 24) + 1) {
            f(i);
        }
        for (std::size_t i = n - 96; i < n; ++i) {
            f(i);
        }
    }
}

struct live_block {
    void* p;
    std::size_t sz, al;
    bool filled;
};

}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* of = std::fopen(argv[2], "w");
    out_fd() = fileno(of);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300u);
    reg();

    std::unique_ptr<world> w;
    std::map<int, live_block> live;
    std::vector<std::unique_ptr<vecmem::memory_monitor>> monitors;
    int nhooks = 0;
    bool alive = false;

    auto intact = [&]() -> std::string {
        for (auto& l : live) {
            if (!l.second.filled) {
                continue;
            }
            const unsigned char* c = static_cast<unsigned char*>(l.second.p);
            bool good = true;
            sampled(l.second.sz, [&](std::size_t i) { good = good && (c[i] == pat(l.first, i)); });
            if (!good) {
                return ",\"ok\":0";
            }
        }
        return ",\"ok\":1";
    };
    auto destroy = [&](bool report) {
        if (!w) {
            return;
        }
        std::string chk = intact();
        // Parents before children.
        while (!w->nodes.empty()) {
            w->nodes.pop_back();
        }
        w.reset();
        if (report && alive) {
            emit("{\"e\":\"D\",\"ups\":" + take_ups() + chk + "}");
        }
        ups().clear();
        monitors.clear();
        live.clear();
        alive = false;
    };
    auto tag = [](std::exception_ptr e) -> std::string {
        try {
            std::rethrow_exception(e);
        } catch (const std::bad_alloc&) {
            return "bad";
        } catch (const std::invalid_argument&) {
            return "inval";
        } catch (const std::logic_error&) {
            return "logic";
        } catch (...) {
            return "exc";
        }
    };

    std::string line;
    int scen = 0, drops = 0, nline = 0;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        std::istringstream is(line);
        std::string op;
        is >> op;
        ++nline;
        if (op == "R") {
            nline = 0;
            destroy(true);
            if (++drops % 64 == 0) {
                reg().drop();
            }
            int policy = 0;
            std::uint64_t seed = 1;
            std::string expr;
            is >> policy >> seed >> expr;
            reset_world(policy, seed);
            std::string pending;
            int keeps = 0, refuses = 0, twin = 0, direct = 0;
            while (is >> pending) {
                if (pending == "keeps") {
                    keeps = 1;
                } else if (pending == "refuses") {
                    refuses = 1;
                } else if (pending == "direct") {
                    direct = 1;
                } else if (pending == "twin") {
                    twin = 1;
                } else
                // p<pos>: forced placement, F<k>: failing call
                if (pending[0] == 'p') {
                    places().forced = std::atoll(pending.c_str() + 1);
                } else if (pending[0] == 'F') {
                    faults().at.push_back(std::atoi(pending.c_str() + 1));
                }
            }
            hooklog().clear();
            g_choice = 0;
            g_pred = true;
            nhooks = 0;
            g_host_addresses = (expr.find('U') == std::string::npos);
            w = std::make_unique<world>();
            std::string res = "ok";
            std::string cfg = "[";
            {
                std::size_t b = expr.find('['), e = expr.find(']');
                if (b == 1 && e != std::string::npos) {
                    std::size_t q = b + 1;
                    while (q < e) {
                        char* endp = nullptr;
                        std::size_t v = std::strtoull(&expr[q], &endp, 10);
                        cfg += (cfg.size() > 1 ? "," : "") + num(cap(v));
                        q = static_cast<std::size_t>(endp - &expr[0]) + 1;
                    }
                }
            }
            cfg += "]";
            try {
                parser ps(expr, *w);
                ps.parse();
                alive = true;
            } catch (...) {
                res = tag(std::current_exception());
            }
            faults().at.clear();
            // The upstream resources directly below the root.
            std::string kids = "[";
            for (std::size_t q = expr.find('('), depth = 0; q < expr.size(); ++q) {
                if (expr[q] == '(') {
                    ++depth;
                } else if (expr[q] == ')') {
                    --depth;
                } else if (expr[q] == 'U' && depth == 1) {
                    kids += (kids.size() > 1 ? "," : "") + num(expr[q + 1] - '0');
                }
            }
            kids += "]";
            emit("{\"e\":\"R\",\"s\":" + num(++scen) + ",\"kids\":" + kids + ",\"kind\":\"" + expr.substr(0, 1) + "\",\"cfg\":" + cfg +
                 ",\"keeps\":" + num(keeps) + ",\"refuses\":" + num(refuses) + ",\"direct\":" + num(direct) + ",\"twin\":" + num(twin) + ",\"expr\":\"" + expr + "\",\"r\":\"" + res + "\",\"ups\":" + take_ups() + "}");
            if (!alive) {
                // Partially built stacks go away again; upstream traffic of
                // that is reported with the destruction.
                while (!w->nodes.empty()) {
                    w->nodes.pop_back();
                }
                w.reset();
                emit("{\"e\":\"D\",\"ups\":" + take_ups() + ",\"ok\":1}");
            }
            continue;
        }
        if (!alive) {
            continue;
        }
        node& root = *w->nodes.back();
        if (op == "E") {  // failing calls within the next allocation only
            int k;
            faults().at.clear();
            while (is >> k) {
                faults().at.push_back(faults().calls + k);
            }
        } else if (op == "K") {
            int n, b;
            is >> n >> b;
            broken()[static_cast<std::size_t>(n)] = (b != 0);
        } else if (op == "W") {
            is >> g_choice;
        } else if (op == "Q") {
            int b;
            is >> b;
            g_pred = (b != 0);
        } else if (op == "p") {
            is >> places().forced;
        } else if (op == "O") {  // the next block comes from here, used or not
            is >> places().overlap;
        } else if (op == "a") {
            int id;
            std::string st;
            std::size_t al;
            is >> id >> st >> al;
            if (live.count(id) != 0) {  // the model freed it, the code did not have to
                faults().at.clear();
                continue;
            }
            const std::size_t sz = parse_size(st);
            void* p = nullptr;
            std::string r = "ok";
            system_blocks::on = g_host_addresses;
            const timed tm(w->instr());
            try {
                p = (al == 0) ? root.get().allocate(sz) : root.get().allocate(sz, al);
            } catch (...) {
                r = tag(std::current_exception());
            }
            system_blocks::on = false;
            const std::string took = tm.str();
            if (al == 0) {
                al = alignof(std::max_align_t);
            }
            faults().at.clear();
            const std::string ul = take_ups();
            std::string chk = intact();
            if (r == "ok" && sz != 0) {
                live_block b{p, sz, al, false};
                const long long q = reg().pos(p);
                const bool inreg = (q >= 0) && (sz < region::size) && (q + cap(sz) <= static_cast<long long>(region::size));
                if (p != nullptr && sz < (1ull << 31) && (g_host_addresses || inreg)) {
                    b.filled = true;
                    unsigned char* c = static_cast<unsigned char*>(p);
                    sampled(sz, [&](std::size_t i) { c[i] = pat(id, i); });
                }
                live[id] = b;
            }
            const std::string av = g_host_addresses ? ",\"av\":" + num(system_blocks::available(p)) : "";
            emit("{\"e\":\"a\",\"ln\":" + num(nline) + ",\"vast\":" + num(sz >> 48 ? 1 : 0) + ",\"id\":" + num(id) + ",\"sz\":" + num(cap(sz)) + ",\"al\":" + num(cap(al)) + ",\"r\":\"" + r +
                 "\",\"a\":" + addr(p) + av + ",\"ups\":" + ul + took + ",\"hk\":" + take_hooks() + chk + "}");
        } else if (op == "d" || op == "x" || op == "y") {
            int id = -1;
            live_block b{nullptr, 0, 0, false};
            if (op != "y") {
                is >> id;
                auto it = live.find(id);
                if (it == live.end()) {
                    continue;  // its allocation failed
                }
                b = it->second;
            }
            if (op == "x") {  // explicit (wrong) size and alignment, and offset
                long long off = 0;
                is >> b.sz >> b.al >> off;
                b.p = static_cast<char*>(b.p) + off;
            } else if (op == "y") {  // some address
                long long q = 0;
                is >> q >> b.sz >> b.al;
                b.p = reg().base + q;
            }
            const std::string chk = intact();
            std::string r = "ok";
            const timed tm(w->instr());
            try {
                root.get().deallocate(b.p, b.sz, b.al);
            } catch (...) {
                r = tag(std::current_exception());
            }
            const std::string took = tm.str();
            if (op == "d" && r == "ok") {
                live.erase(id);
            } else if (op == "x" && r == "ok") {
                auto it = live.find(id);
                if (it != live.end() && it->second.p == b.p) {
                    live.erase(it);
                }
            }
            emit("{\"e\":\"d\",\"id\":" + num(id) + ",\"sz\":" + num(cap(b.sz)) + ",\"al\":" + num(cap(b.al)) + ",\"r\":\"" + r +
                 "\",\"a\":" + addr(b.p) + ",\"ups\":" + take_ups() + took + ",\"hk\":" + take_hooks() + chk + "}");
        } else if (op == "z") {
            std::size_t al;
            is >> al;
            std::string r = "ok";
            try {
                (void)root.get().allocate(0, al);
            } catch (...) {
                r = tag(std::current_exception());
            }
            emit("{\"e\":\"z\",\"al\":" + num(cap(al)) + ",\"r\":\"" + r + "\",\"ups\":" + take_ups() + ",\"hk\":" + take_hooks() + intact() + "}");
        } else if (op == "n") {
            std::size_t sz = 16, al = 16;
            is >> sz >> al;
            std::string r = "ok";
            try {
                root.get().deallocate(nullptr, sz, al);
            } catch (...) {
                r = tag(std::current_exception());
            }
            emit("{\"e\":\"n\",\"r\":\"" + r + "\",\"ups\":" + take_ups() + ",\"hk\":" + take_hooks() + intact() + "}");
        } else if (op == "m" || op == "M") {
            std::string r = "ok";
            try {
                (op == "m") ? root.move_construct() : root.move_assign();
            } catch (...) {
                r = tag(std::current_exception());
            }
            emit("{\"e\":\"" + op + "\",\"r\":\"" + r + "\",\"ups\":" + take_ups() + intact() + "}");
        } else if (op == "h") {
            std::string t;
            is >> t;
            auto* n = w->instr();
            const int i = ++nhooks;
            auto nev = [&w]() { return num(static_cast<long long>(w->instr()->get_events().size())); };
            if (t == "pre") {
                n->add_pre_allocate_hook([i, nev](std::size_t sz, std::size_t al) {
                    hooklog().push_back("{\"h\":\"pre\",\"i\":" + num(i) + ",\"sz\":" + num(cap(sz)) + ",\"al\":" + num(cap(al)) +
                                        ",\"a\":-1,\"nu\":" + num(static_cast<long long>(ups().size())) + ",\"ne\":" + nev() + "}");
                });
            } else if (t == "post") {
                n->add_post_allocate_hook([i, nev](std::size_t sz, std::size_t al, void* p) {
                    hooklog().push_back("{\"h\":\"post\",\"i\":" + num(i) + ",\"sz\":" + num(cap(sz)) + ",\"al\":" + num(cap(al)) +
                                        ",\"a\":" + addr(p) + ",\"nu\":" + num(static_cast<long long>(ups().size())) + ",\"ne\":" + nev() + "}");
                });
            } else {
                n->add_pre_deallocate_hook([i, nev](void* p, std::size_t sz, std::size_t al) {
                    hooklog().push_back("{\"h\":\"dea\",\"i\":" + num(i) + ",\"sz\":" + num(cap(sz)) + ",\"al\":" + num(cap(al)) +
                                        ",\"a\":" + addr(p) + ",\"nu\":" + num(static_cast<long long>(ups().size())) + ",\"ne\":" + nev() + "}");
                });
            }
            emit("{\"e\":\"h\",\"h\":\"" + t + "\",\"i\":" + num(i) + "}");
        } else if (op == "o") {
            monitors.push_back(std::make_unique<vecmem::memory_monitor>(*w->instr()));
            emit("{\"e\":\"o\"}");
        } else if (op == "g") {
            std::string s = "{\"e\":\"g\",\"ev\":[";
            bool first = true;
            auto* n = w->instr();
            if (n) {
                for (const auto& ev : n->get_events()) {
                    s += std::string(first ? "" : ",") + "{\"t\":\"" +
                         (ev.m_type == vecmem::instrumenting_memory_resource::memory_event::type::ALLOCATION ? "A" : "D") +
                         "\",\"sz\":" + num(cap(ev.m_size)) + ",\"al\":" + num(cap(ev.m_align)) + ",\"a\":" + addr(ev.m_ptr) + "}";
                    first = false;
                }
            }
            emit(s + "]}");
        } else if (op == "G") {
            std::string s = "{\"e\":\"G\",\"mon\":[";
            for (std::size_t i = 0; i < monitors.size(); ++i) {
                auto& m = *monitors[i];
                auto pair = [](std::size_t v) {
                    return "[" + num(static_cast<long long>(std::min<std::size_t>(v >> 24, 2147483647u))) + "," +
                           num(static_cast<long long>(v & 0xffffff)) + "]";
                };
                s += std::string(i ? "," : "") + "{\"tot\":" + pair(m.total_allocation()) + ",\"out\":" + pair(m.outstanding_allocation()) +
                     ",\"max\":" + pair(m.maximal_allocation()) + ",\"avg\":" + pair(m.average_allocation()) + "}";
            }
            emit(s + "]}");
        } else if (op == "D") {
            destroy(true);
        } else {
            std::cerr << "bad op " << line << std::endl;
            return 3;
        }
    }
    destroy(true);
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
