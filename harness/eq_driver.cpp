// Conformance driver for the equality of memory resources.  Lines:
//   R                  forget everything
//   o <kind> <up>      a new object, number 1, 2, ...; up: number of its upstream, 0 for none
//   e                  compares everything with everything
#include <fstream>
#include <memory>
#include <sstream>

#include "trace.hpp"
#include "vecmem/memory/arena_memory_resource.hpp"
#include "vecmem/memory/binary_page_memory_resource.hpp"
#include "vecmem/memory/choice_memory_resource.hpp"
#include "vecmem/memory/coalescing_memory_resource.hpp"
#include "vecmem/memory/conditional_memory_resource.hpp"
#include "vecmem/memory/contiguous_memory_resource.hpp"
#include "vecmem/memory/debug_memory_resource.hpp"
#include "vecmem/memory/host_memory_resource.hpp"
#include "vecmem/memory/identity_memory_resource.hpp"
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include "vecmem/memory/pool_memory_resource.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
#include "vecmem/memory/terminal_memory_resource.hpp"
using namespace vp;
using MR = vecmem::memory_resource;

namespace {
// An object made by f, given its upstream; perhaps by way of another one.
template <typename F>
std::unique_ptr<MR> fresh(std::size_t how, MR* u, F f) {
    using T = typename decltype(f(*u))::element_type;
    static vecmem::host_memory_resource elsewhere;
    if constexpr (std::is_move_constructible_v<T>) {
        if (how % 5 == 1) {
            auto q = f(*u);
            return std::make_unique<T>(std::move(*q));
        }
    }
    if constexpr (std::is_move_assignable_v<T>) {
        if (how % 5 == 2) {
            auto p = f(elsewhere), q = f(*u);
            *p = std::move(*q);
            return p;
        }
    }
    if constexpr (std::is_copy_constructible_v<T>) {
        if (how % 5 == 3) {
            auto q = f(*u);
            return std::make_unique<T>(static_cast<const T&>(*q));
        }
    }
    if constexpr (std::is_copy_assignable_v<T>) {
        if (how % 5 == 4) {
            auto p = f(elsewhere), q = f(*u);
            *p = static_cast<const T&>(*q);
            return p;
        }
    }
    return f(*u);
}
}  // namespace

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    FILE* of = std::fopen(argv[2], "w");
    out_fd() = fileno(of);
    install_handlers(static_cast<unsigned>(std::atoi(argv[3])));
    std::vector<std::unique_ptr<MR>> o;
    int scen = 0;
    std::string line;
    auto clear = [&]() {
        while (!o.empty()) {
            o.pop_back();
        }
    };
    while (std::getline(in, line)) {
        using namespace vecmem;
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            clear();
            reset_world(3, 1);
            emit("{\"e\":\"R\",\"s\":" + num(++scen) + "}");
        } else if (op == "o") {
            std::string k;
            std::size_t up = 0;
            is >> k >> up;
            const std::size_t how = o.size() * 7 + static_cast<std::size_t>(scen);
            MR* u = up ? o.at(up - 1).get() : nullptr;
            try {
            switch (k[0]) {
                case 'U': o.push_back(std::make_unique<upstream>(0)); break;
                case 'H': o.push_back(std::make_unique<host_memory_resource>()); break;
                case 'T': o.push_back(std::make_unique<terminal_memory_resource>()); break;
                case 'I': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<identity_memory_resource>(x); })); break;
                case 'S': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<synchronized_memory_resource>(x); })); break;
                case 'G': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<debug_memory_resource>(x); })); break;
                case 'N': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<instrumenting_memory_resource>(x); })); break;
                case 'B': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<binary_page_memory_resource>(x); })); break;
                case 'P': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<pool_memory_resource>(x); })); break;
                case 'A': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<arena_memory_resource>(x, 256, 1u << 20); })); break;
                case 'C': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<contiguous_memory_resource>(x, 64); })); break;
                case 'X': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<choice_memory_resource>([&x](std::size_t, std::size_t) -> MR& { return x; }); })); break;
                case 'Q': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<conditional_memory_resource>(x, [](std::size_t, std::size_t) { return true; }); })); break;
                case 'L': o.push_back(fresh(how, u, [](MR& x) { return std::make_unique<coalescing_memory_resource>(std::vector<std::reference_wrapper<MR>>{x}); })); break;
                default: return 3;
            }
            } catch (const std::bad_alloc&) {  // its upstream refuses everything
                o.push_back(std::make_unique<upstream>(0));
                k = "U";
                up = 0;
            }
            emit("{\"e\":\"o\",\"kind\":\"" + k + "\",\"up\":" + num(static_cast<long long>(up)) + "}");
        } else if (op == "e") {
            std::string s = "{\"e\":\"e\",\"m\":[";
            bool stable = true;
            for (std::size_t i = 0; i < o.size(); ++i) {
                s += i ? ",[" : "[";
                for (std::size_t j = 0; j < o.size(); ++j) {
                    const bool r = o[i]->is_equal(*o[j]);
                    stable = stable && (r == o[i]->is_equal(*o[j]));
                    s += std::string(j ? "," : "") + (r ? "1" : "0");
                }
                s += "]";
            }
            emit(s + "],\"stable\":" + (stable ? "1" : "0") + "}");
        }
    }
    clear();
    emit("{\"e\":\"end\"}");
    flush();
    _exit(0);
}
