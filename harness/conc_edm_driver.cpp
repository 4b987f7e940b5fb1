// Conformance driver for concurrent appends of default elements to structured
// containers (C31, spec/Appends.tla: a container counts as a vector of
// elements; one whose variables do not agree is -1).  Lines:
//   R schema seed shared initial executions preemptions random
//   t thread op v            (op: push, size; v: container 1 or 2)
// Compiled with -fsanitize=thread and linked with sched.cpp.
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "elements.hpp"
#include "sched.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/view.hpp"
#include "vecmem/memory/memory_resource.hpp"
using namespace vp;

namespace {
struct step {
    std::string op;
    std::size_t v;
};
struct plan {
    char type = 'a';
    std::uint64_t seed = 1;
    int shared = 0, initial = 0;
    sched::limits lim;
    std::vector<std::vector<step>> threads;
};
struct resource : vecmem::memory_resource {
    std::vector<std::unique_ptr<guarded>> all;
    void* do_allocate(std::size_t n, std::size_t al) override {
        all.push_back(std::make_unique<guarded>(n, al));
        return all.back()->p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }
    bool intact() {
        bool ok = true;
        for (auto& g : all) {
            ok = ok && g->intact();
        }
        return ok;
    }
};
template <typename B>
struct iface : B {
    using B::B;
};
namespace vt = vecmem::edm::type;

template <typename... V>
void explore(const plan& p) {
    constexpr std::size_t N = 2, W = sizeof...(V);
    using con = vecmem::edm::container<iface, V...>;
    using device = typename con::device;
    const auto each = [](auto f) {
        [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<W>{});
    };
    guarded::restart();
    std::size_t need[N] = {0, 0};
    for (const auto& t : p.threads) {
        for (const step& s : t) {
            need[s.v - 1] += s.op == "push";
        }
    }
    resource mr[N];
    unsigned cap[N];
    typename con::buffer bufs[N];
    typename con::view views[N];
    sched::unshare_all();
    for (std::size_t v = 0; v < N; ++v) {
        cap[v] = static_cast<unsigned>(need[v] + static_cast<std::size_t>(p.initial) + (p.seed % 2));
        bufs[v] = typename con::buffer(cap[v], mr[v], vecmem::data::buffer_type::resizable);
        views[v] = typename con::view(bufs[v]);
        sched::share(views[v].size().ptr(), sizeof(unsigned), 1);
        each([&](auto I) {
            using T = typename std::tuple_element_t<I, std::tuple<V...>>::type;
            if constexpr (!vt::details::is_scalar_v<std::tuple_element_t<I, std::tuple<V...>>>) {
                auto& x = views[v].template get<I>();
                if (cap[v] > 0) {
                    sched::share(x.ptr(), cap[v] * sizeof(T), 2);
                }
            }
        });
    }
    std::vector<device> own;
    for (std::size_t v = 0; v < N; ++v) {
        own.emplace_back(views[v]);
    }
    auto init = [&](std::size_t v) {
        std::vector<int> r;
        for (int i = 0; i < p.initial; ++i) {
            r.push_back(static_cast<int>(90 + 10 * v) + i);
        }
        return r;
    };
    sched::program g;
    g.reset = [&] {
        std::string s = "{\"e\":\"R\",\"counted\":0,\"dflt\":0,\"vs\":[";
        for (std::size_t v = 0; v < N; ++v) {
            const unsigned n = static_cast<unsigned>(p.initial);
            std::memcpy(views[v].size().ptr(), &n, sizeof n);
            each([&](auto I) {
                using T = typename std::tuple_element_t<I, std::tuple<V...>>::type;
                if constexpr (!vt::details::is_scalar_v<std::tuple_element_t<I, std::tuple<V...>>>) {
                    auto& x = views[v].template get<I>();
                    std::memset(static_cast<void*>(x.ptr()), 0x3c, cap[v] * sizeof(T));
                    for (std::size_t i = 0; i < n; ++i) {
                        new (x.ptr() + i) T(make<T>(init(v)[i]));
                    }
                }
            });
            s += std::string(v ? "," : "") + "{\"cap\":" + num(cap[v]) + ",\"s\":" + list(init(v)) + "}";
        }
        sched::event(s + "]}");
    };
    for (std::size_t t = 0; t < p.threads.size(); ++t) {
        g.threads.push_back([&, t] {
            for (const step& s : p.threads[t]) {
                sched::event("{\"e\":\"call\",\"t\":" + num(static_cast<long long>(t)) + ",\"op\":\"" + s.op + "\",\"v\":" + num(static_cast<long long>(s.v)) + ",\"x\":[" + (s.op == "push" ? "0" : "") + "]}");
                sched::take_accesses();
                long long r = 0;
                auto act = [&](device& d) { r = s.op == "push" ? d.push_back_default() : d.size(); };
                if (p.shared) {
                    act(own[s.v - 1]);
                } else {
                    device mine(views[s.v - 1]);
                    act(mine);
                }
                int race = 0;
                for (const sched::access& a : sched::take_accesses()) {
                    race |= a.kind == 'p' && a.tag == 1;
                }
                sched::event("{\"e\":\"ret\",\"t\":" + num(static_cast<long long>(t)) + ",\"r\":" + num(r) + ",\"race\":" + num(race) + "}");
            }
        });
    }
    g.finish = [&] {
        bool ok = true;
        std::string s;
        for (std::size_t v = 0; v < N; ++v) {
            ok = ok && mr[v].intact();
            const device d(views[v]);
            std::vector<int> r;
            for (unsigned i = 0; i < d.size() && i < cap[v]; ++i) {
                int x = -2;
                each([&](auto I) {
                    if constexpr (!vt::details::is_scalar_v<std::tuple_element_t<I, std::tuple<V...>>>) {
                        const int y = get(d.template get<I>()[i]);
                        x = x == -2 || x == y ? y : -1;
                    }
                });
                r.push_back(x);
            }
            s += std::string(v ? "," : "") + "{\"cap\":" + num(d.capacity()) + ",\"sz\":" + num(d.size()) + ",\"s\":" + list(r) + "}";
        }
        sched::event("{\"e\":\"fin\",\"obs\":[" + s + "],\"lt\":[],\"g\":" + num(ok) + ",\"bal\":0}");
    };
    const sched::result res = sched::explore(g, p.lim);
    for (const auto& h : res.histories) {
        for (const std::string& e : h) {
            emit(e);
        }
    }
    std::fprintf(stderr, "STAT executions %ld histories %zu complete %d\n", res.executions, res.histories.size(), res.complete);
}
void go(const plan& p) {
    if (p.threads.empty()) {
        return;
    }
    switch (p.type) {
        case 'b': explore<vt::vector<signed char>, vt::scalar<int>, vt::vector<long>, vt::vector<int>>(p); break;
        case 'c': explore<vt::vector<long>>(p); break;
        default: explore<vt::scalar<int>, vt::vector<int>, vt::vector<signed char>>(p);
    }
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    plan p;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op, type;
        is >> op;
        if (op == "R") {
            go(p);
            p = plan();
            is >> type >> p.seed >> p.shared >> p.initial >> p.lim.executions >> p.lim.preemptions >> p.lim.random;
            p.lim.seed = p.seed;
            p.type = type[0];
        } else if (op == "t") {
            std::size_t t = 0;
            step s;
            is >> t >> s.op >> s.v;
            while (p.threads.size() <= t) {
                p.threads.emplace_back();
            }
            p.threads[t].push_back(s);
        }
    }
    go(p);
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
