// Conformance driver for concurrent appends to device vectors.  Lines:
//   R type seed jagged shared initial executions preemptions random
//                            (two vectors; shared: all threads use the same
//                             device vector objects)
//   t thread op v args...    (programs of the threads; a value that is
//                             missing is chosen here)
// A program is explored when the next one begins.  Compiled with
// -fsanitize=thread and linked with sched.cpp.
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>

#include "elements.hpp"
#include "sched.hpp"
#include "vecmem/containers/data/jagged_vector_view.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
using namespace vp;

namespace {
struct step {
    std::string op;
    std::size_t v;
    std::vector<int> x;
};
struct plan {
    char type = 'i';
    std::uint64_t seed = 1;
    int jagged = 0, shared = 0, initial = 0;
    sched::limits lim;
    std::vector<std::vector<step>> threads;
};

template <typename T>
void explore(const plan& p) {
    using size_type = typename vecmem::data::vector_view<T>::size_type;
    using view = vecmem::data::vector_view<T>;
    using dv = vecmem::device_vector<T>;
    constexpr std::size_t N = 2;
    guarded::restart();
    std::size_t need[N] = {0, 0};
    for (const auto& t : p.threads) {
        for (const step& s : t) {
            need[s.v - 1] += s.op == "push" ? 1 : s.op == "size" ? 0 : static_cast<std::size_t>(s.x[0]);
        }
    }
    guarded mem[N], size[N], inner(sizeof(view) * N, alignof(view));
    unsigned cap[N];
    view views[N];
    sched::unshare_all();
    for (std::size_t v = 0; v < N; ++v) {
        cap[v] = static_cast<unsigned>(need[v] + static_cast<std::size_t>(p.initial) + (p.seed % 2));
        mem[v] = guarded(cap[v] * sizeof(T), alignof(T));
        size[v] = guarded(sizeof(size_type), alignof(size_type));
        views[v] = view(cap[v], reinterpret_cast<size_type*>(size[v].p), reinterpret_cast<T*>(mem[v].p));
        new (reinterpret_cast<view*>(inner.p) + v) view(views[v]);
        sched::share(size[v].p, sizeof(size_type), 1);
        sched::share(mem[v].p, mem[v].n, 2);
    }
    std::vector<dv> own;
    for (std::size_t v = 0; v < N; ++v) {
        own.emplace_back(views[v]);
    }
    vecmem::data::jagged_vector_view<T> jview(N, reinterpret_cast<view*>(inner.p));
    vecmem::jagged_device_vector<T> jv(jview);
    sched::program g;
    auto init = [&](std::size_t v) {
        std::vector<int> r;
        for (int i = 0; i < p.initial; ++i) {
            r.push_back(static_cast<int>(90 + 10 * v) + i);
        }
        return r;
    };
    g.reset = [&] {
        std::string s = "{\"e\":\"R\",\"counted\":" + num(is_counted_t<T>::value) + ",\"dflt\":" + num(default_of<T>()) + ",\"vs\":[";
        for (std::size_t v = 0; v < N; ++v) {
            std::memset(mem[v].p, 0x3c, mem[v].n);
            const size_type n = static_cast<size_type>(p.initial);
            std::memcpy(size[v].p, &n, sizeof n);
            for (std::size_t i = 0; i < static_cast<std::size_t>(p.initial); ++i) {
                new (reinterpret_cast<T*>(mem[v].p) + i) T(make<T>(init(v)[i]));
            }
            s += std::string(v ? "," : "") + "{\"cap\":" + num(cap[v]) + ",\"s\":" + list(init(v)) + "}";
        }
        lives().clear();
        balance() = 0;
        sched::event(s + "]}");
    };
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        g.threads.push_back([&, t] {
            int k = 0;
            for (const step& s : p.threads[t]) {
                ++k;
                std::vector<int> x = s.x;
                const int value = static_cast<int>(20 * (t + 1)) + k;
                if ((s.op == "push" && x.empty()) || (s.op == "bulkv" && x.size() < 2)) {
                    x.push_back(value);
                } else if (s.op == "bulkv") {
                    x[1] = value;
                }
                sched::event("{\"e\":\"call\",\"t\":" + num(static_cast<long long>(t)) + ",\"op\":\"" + s.op + "\",\"v\":" + num(static_cast<long long>(s.v)) + ",\"x\":" + list(x) + "}");
                sched::take_accesses();
                long long r = 0;
                auto act = [&](dv& d) {
                    if (s.op == "push") {
                        const T value_ = make<T>(x[0]);
                        switch ((t + static_cast<std::size_t>(k) + p.seed) % 3) {
                            case 0: r = &d.emplace_back(value_) - reinterpret_cast<T*>(mem[s.v - 1].p); break;
                            default: r = d.push_back(value_);
                        }
                    } else if (s.op == "bulk") {
                        r = d.bulk_append(static_cast<size_type>(x[0]));
                    } else if (s.op == "bulkv") {
                        r = d.bulk_append(static_cast<size_type>(x[0]), make<T>(x[1]));
                    } else if (s.op == "impl") {
                        if constexpr (!is_counted_t<T>::value) {
                            r = (t + p.seed) % 2 ? d.bulk_append_implicit(static_cast<size_type>(x[0])) : d.bulk_append_implicit_unsafe(static_cast<size_type>(x[0]));
                        }
                    } else {
                        r = d.size();
                    }
                };
                if (p.jagged) {
                    if (p.shared) {
                        dv d = jv.at(s.v - 1);
                        act(d);
                    } else {
                        vecmem::jagged_device_vector<T> mine(jview);
                        dv d = mine[s.v - 1];
                        act(d);
                    }
                } else if (p.shared) {
                    act(own[s.v - 1]);
                } else {
                    dv mine(views[s.v - 1]);
                    act(mine);
                }
                int race = 0;
                for (const sched::access& a : sched::take_accesses()) {
                    race |= a.kind == 'p' && a.tag == 1;
                }
                sched::event("{\"e\":\"ret\",\"t\":" + num(static_cast<long long>(t)) + ",\"r\":" + num(r) + ",\"race\":" + num(race) + "}");
            }
        });
    }
    g.finish = [&] {
        auto slot = [&](const void* q) -> std::string {
            for (std::size_t v = 0; v < N; ++v) {
                const char* c = static_cast<const char*>(q);
                if (c >= mem[v].p && c < mem[v].p + mem[v].n) {
                    return num(static_cast<long long>(v + 1)) + "," + num((c - mem[v].p) / static_cast<long>(sizeof(T)));
                }
            }
            return "0,-1";
        };
        bool ok = inner.intact();
        std::string s;
        const long bal = balance();
        const std::string lt = take_lives(slot);
        for (std::size_t v = 0; v < N; ++v) {
            ok = ok && mem[v].intact() && size[v].intact();
            const dv d(views[v]);
            std::vector<int> r;
            if (d.size() <= cap[v]) {
                for (const T& x : d) {
                    r.push_back(get(x));
                }
            }
            s += std::string(v ? "," : "") + "{\"cap\":" + num(d.capacity()) + ",\"sz\":" + num(d.size()) + ",\"s\":" + list(r) + "}";
        }
        lives().clear();
        sched::event("{\"e\":\"fin\",\"obs\":[" + s + "],\"lt\":" + lt + ",\"g\":" + num(ok) + ",\"bal\":" + num(bal) + "}");
    };
    const sched::result res = sched::explore(g, p.lim);
    for (const auto& h : res.histories) {
        for (const std::string& e : h) {
            emit(e);
        }
    }
    std::fprintf(stderr, "STAT executions %ld histories %zu complete %d\n", res.executions, res.histories.size(), res.complete);
}
void go(const plan& p) {
    if (p.threads.empty()) {
        return;
    }
    switch (p.type) {
        case 'c': explore<counted<4, 4>>(p); break;
        case 'C': explore<counted<24, 8>>(p); break;
        case 'y': explore<signed char>(p); break;
        case 'l': explore<long>(p); break;
        default: explore<int>(p);
    }
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    plan p;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op, type;
        is >> op;
        if (op == "R") {
            go(p);
            p = plan();
            is >> type >> p.seed >> p.jagged >> p.shared >> p.initial >> p.lim.executions >> p.lim.preemptions >> p.lim.random;
            p.lim.seed = p.seed;
            p.type = type[0];
        } else if (op == "t") {
            std::size_t t = 0;
            step s;
            is >> t >> s.op >> s.v;
            int k;
            while (is >> k) {
                s.x.push_back(k);
            }
            while (p.threads.size() <= t) {
                p.threads.emplace_back();
            }
            if (s.op == "impl" && (p.type == 'c' || p.type == 'C')) {
                s.op = "bulk";
            }
            p.threads[t].push_back(s);
        }
    }
    go(p);
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
