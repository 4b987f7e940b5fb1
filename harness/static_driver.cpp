// Conformance driver for static vectors.  Lines:
//   R type cap seed n      n vectors of that capacity, empty
//     type: i (int), y (signed char), c (counted, 4 bytes), C (counted, 24
//           bytes), A (counted, aligned to 64), p (plain), w (placed)
//   op v args...           the operations of spec/StaticVector.tla; those that
//                          are not allowed in the current state are left out
#include <fstream>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>

#include "elements.hpp"
#include "vecmem/containers/static_vector.hpp"
using namespace vp;

namespace {
struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::size_t, std::vector<int>) = 0;
};

template <typename T, std::size_t N>
struct world : any_world {
    using sv = vecmem::static_vector<T, N>;
    struct vec {
        guarded mem;
        sv* p;
    };
    std::vector<vec> vs;
    rng r;
    world(std::uint64_t seed, std::size_t n) : r(seed) {
        guarded::restart();
        vs.resize(n);
        std::string s = "{\"e\":\"R\",\"counted\":" + num(is_counted_t<T>::value) + ",\"dflt\":" + num(default_of<T>()) + ",\"vs\":[";
        for (std::size_t i = 0; i < n; ++i) {
            vs[i].mem = guarded(sizeof(sv), alignof(sv));
            std::memset(vs[i].mem.p, 0x3c, sizeof(sv));
            vs[i].p = new (vs[i].mem.p) sv();
            s += std::string(i ? "," : "") + "{\"cap\":" + num(N) + ",\"fixed\":0,\"s\":[]}";
        }
        lives().clear();
        balance() = 0;
        emit(s + "]}");
        observe("none", 1, {}, 0);
    }
    ~world() override {
        // The last words of each vector.
        for (std::size_t i = 0; i < vs.size(); ++i) {
            if (vs[i].p->size() <= N) {
                operate("new0", i + 1, {});
            }
        }
    }
    std::string slot(const void* p) {
        for (std::size_t i = 0; i < vs.size(); ++i) {
            const char* c = static_cast<const char*>(p);
            if (N != 0 && c >= vs[i].mem.p && c < vs[i].mem.p + vs[i].mem.n) {
                const long off = static_cast<long>(c - reinterpret_cast<const char*>(vs[i].p->data()));
                if (off >= 0 && off % static_cast<long>(sizeof(T)) == 0) {
                    return num(static_cast<long long>(i + 1)) + "," + num(off / static_cast<long>(sizeof(T)));
                }
            }
        }
        return "0,-1";
    }
    void observe(const std::string& op, std::size_t v, const std::vector<int>& x, long long result) {
        const long bal = balance();
        std::string s = "{\"e\":\"op\",\"op\":\"" + op + "\",\"v\":" + num(static_cast<long long>(v)) + ",\"x\":" + list(x) + ",\"r\":" + num(result) + ",\"bal\":" + num(bal) +
                        ",\"lt\":" + take_lives([this](const void* p) { return slot(p); });
        balance() = 0;
        bool ok = true;
        s += ",\"obs\":[";
        for (std::size_t i = 0; i < vs.size(); ++i) {
            sv& a = *vs[i].p;
            const sv& b = a;
            ok = ok && vs[i].mem.intact();
            readings rd;
            int un = 0;
            if (a.size() > N) {
                rd.add({-1});
            } else {
                read_all(a, rd, un);
                read_all(b, rd, un);
            }
            un += reinterpret_cast<std::uintptr_t>(a.data()) % alignof(T) != 0 && N != 0;
            un += a.begin() != a.data() || b.begin() != b.data() || a.data() != b.data();
            s += std::string(i ? "," : "") + "{\"cap\":" + num(static_cast<long long>(a.capacity())) + ",\"sz\":" + num(static_cast<long long>(a.size())) + ",\"un\":" + num(un) +
                 ",\"rd\":" + rd.str() + "}";
        }
        emit(s + "],\"g\":" + num(ok) + "}");
    }
    std::vector<T> source(const std::vector<int>& x, std::size_t from) {
        std::vector<T> t;
        t.reserve(x.size());
        for (std::size_t k = from; k < x.size(); ++k) {
            t.push_back(make<T>(x[k]));
        }
        return t;
    }
    void operate(const std::string& op, std::size_t vi, std::vector<int> x) override {
        if (vi < 1 || vi > vs.size()) {
            return;
        }
        sv& d = *vs[vi - 1].p;
        sv* const self = &d;
        const std::size_t n = d.size();
        auto arg = [&](std::size_t k) { return static_cast<std::size_t>(x.at(k)); };
        const std::size_t nargs = x.size();
        for (std::size_t k = 0; k < nargs; ++k) {
            // Counts and positions are never negative.
            const bool value = ((op == "push") || (op == "assignr") || (op == "newr") || (op == "insr" && k > 0) || (op == "insn" && k == 2) ||
                                ((op == "resizev" || op == "assign" || op == "newn" || op == "set" || op == "ins") && k == 1));
            if (!value && x[k] < 0) {
                return;
            }
        }
        const bool fine =
            op == "push"     ? nargs == 1 && n < N
            : op == "pusha"  ? nargs == 1 && n < N && arg(0) < n
            : op == "del"    ? nargs == 1 && arg(0) < n
            : op == "pop"    ? n > 0
            : op == "resize" ? nargs == 1 && arg(0) <= N
            : op == "newd"   ? nargs == 1 && arg(0) <= N
            : (op == "resizev" || op == "assign" || op == "newn") ? nargs == 2 && arg(0) <= N
            : op == "resizea" ? nargs == 2 && arg(0) <= N && arg(1) < n
            : (op == "assignr" || op == "newr") ? nargs <= N
            : op == "set"   ? nargs == 2 && arg(0) < n
            : op == "ins"   ? nargs == 2 && arg(0) <= n && n < N
            : op == "insa"  ? nargs == 2 && arg(0) <= n && arg(1) < n && n < N
            : op == "insn"  ? nargs == 3 && arg(0) <= n && n + arg(1) <= N
            : op == "insna" ? nargs == 3 && arg(0) <= n && n + arg(1) <= N && arg(2) < n
            : op == "insr"  ? nargs >= 1 && arg(0) <= n && n + nargs - 1 <= N
            : op == "delr"  ? nargs == 2 && arg(0) <= arg(1) && arg(1) <= n
            : (op == "asg" || op == "copyc") ? nargs == 1 && arg(0) >= 1 && arg(0) <= vs.size() && (op == "asg" || arg(0) != vi)
                                             : op == "clear" || op == "new0" || op == "none";
        if (!fine) {
            return;
        }
        lives().clear();
        balance() = 0;
        long long ret = 0;
        const auto at = [&](std::size_t k) { return typename sv::const_iterator(r.below(2) ? d.begin() + k : d.cbegin() + k); };
        const auto index = [&](typename sv::iterator i) { return static_cast<long long>(i - d.begin()); };
        std::vector<T> src;
        std::list<T> lst;
        const auto fill = [&](std::size_t from) {
            src = source(x, from);
            lst.assign(src.begin(), src.end());
            lives().clear();
            balance() = 0;
        };
        if (op == "clear") {
            d.clear();
        } else if (op == "new0") {
            d.~sv();
            std::memset(static_cast<void*>(self), 0x3c, sizeof(sv));
            new (self) sv();
        } else if (op == "copyc") {
            d.~sv();
            std::memset(static_cast<void*>(self), 0x3c, sizeof(sv));
            sv& o = *vs[arg(0) - 1].p;
            const sv& co = o;
            // A vector that is moved from stays as it was.
            new (self) sv(co);
        } else if (op == "asg") {
            sv& o = *vs[arg(0) - 1].p;
            const sv& co = o;
            ret = &(d = co) != self;
        } else if constexpr (N > 0) {
            if (op == "push") {
                if (r.below(2)) {
                    const T t = make<T>(x[0]);
                    d.push_back(t);
                    ret = static_cast<long long>(n);
                } else if (r.below(2)) {
                    ret = &d.emplace_back(make<T>(x[0])) - d.data();
                } else if constexpr (is_counted_t<T>::value) {
                    ret = &d.emplace_back(x[0] - 3, 3) - d.data();
                } else {
                    d.push_back(make<T>(x[0]));
                    ret = static_cast<long long>(n);
                }
            } else if (op == "pusha") {
                if (r.below(2)) {
                    d.push_back(d[arg(0)]);
                    ret = static_cast<long long>(n);
                } else {
                    ret = &d.emplace_back(d[arg(0)]) - d.data();
                }
            } else if (op == "pop") {
                d.pop_back();
                ret = static_cast<long long>(d.size());
            } else if (op == "resize") {
                d.resize(arg(0));
            } else if (op == "resizev") {
                d.resize(arg(0), make<T>(x[1]));
            } else if (op == "resizea") {
                d.resize(arg(0), d[arg(1)]);
            } else if (op == "assign") {
                d.assign(arg(0), make<T>(x[1]));
            } else if (op == "assignr") {
                fill(0);
                switch (r.below(3)) {
                    case 0: d.assign(src.begin(), src.end()); break;
                    case 1: d.assign(lst.begin(), lst.end()); break;
                    default: d.assign(static_cast<const T*>(src.data()), static_cast<const T*>(src.data() + src.size()));
                }
            } else if (op == "newr") {
                fill(0);
                d.~sv();
                std::memset(static_cast<void*>(self), 0x3c, sizeof(sv));
                if (r.below(2)) {
                    new (self) sv(src.begin(), src.end());
                } else {
                    new (self) sv(lst.begin(), lst.end());
                }
            } else if (op == "newd" || op == "newn") {
                d.~sv();
                std::memset(static_cast<void*>(self), 0x3c, sizeof(sv));
                if (op == "newd") {
                    new (self) sv(arg(0));
                } else {
                    new (self) sv(arg(0), make<T>(x[1]));
                }
            } else if (op == "set") {
                const std::size_t i = arg(0);
                switch (r.below(6)) {
                    case 0: set(d[i], x[1]); break;
                    case 1: set(d.at(i), x[1]); break;
                    case 2: set(*(d.begin() + i), x[1]); break;
                    case 3: set(*(d.rbegin() + static_cast<long>(n - 1 - i)), x[1]); break;
                    case 4: set(d.data()[i], x[1]); break;
                    default: set(i == 0 ? d.front() : i + 1 == n ? d.back() : d[i], x[1]);
                }
            } else if (op == "ins") {
                if (r.below(2)) {
                    ret = index(d.insert(at(arg(0)), make<T>(x[1])));
                } else if (r.below(2)) {
                    ret = index(d.emplace(at(arg(0)), make<T>(x[1])));
                } else if constexpr (is_counted_t<T>::value) {
                    ret = index(d.emplace(at(arg(0)), x[1] + 4, -4));
                } else {
                    const T t = make<T>(x[1]);
                    ret = index(d.emplace(at(arg(0)), t));
                }
            } else if (op == "insa") {
                if (r.below(2)) {
                    ret = index(d.insert(at(arg(0)), d[arg(1)]));
                } else {
                    ret = index(d.emplace(at(arg(0)), d[arg(1)]));
                }
            } else if (op == "insn") {
                ret = index(d.insert(at(arg(0)), arg(1), make<T>(x[2])));
            } else if (op == "insna") {
                ret = index(d.insert(at(arg(0)), arg(1), d[arg(2)]));
            } else if (op == "insr") {
                fill(1);
                switch (r.below(3)) {
                    case 0: ret = index(d.insert(at(arg(0)), src.begin(), src.end())); break;
                    case 1: ret = index(d.insert(at(arg(0)), lst.begin(), lst.end())); break;
                    default: ret = index(d.insert(at(arg(0)), static_cast<const T*>(src.data()), static_cast<const T*>(src.data() + src.size())));
                }
            } else if (op == "del") {
                ret = index(d.erase(at(arg(0))));
            } else if (op == "delr") {
                ret = index(d.erase(at(arg(0)), at(arg(1))));
            } else if (op == "none") {
                d.reserve(N);
            } else {
                std::fprintf(stderr, "unknown operation %s\n", op.c_str());
                std::exit(3);
            }
        } else {
            if (op == "resize") {
                d.resize(0);
            } else if (op == "assign") {
                d.assign(0, make<T>(1));
            } else if (op == "newn") {
                d.~sv();
                new (self) sv(0, make<T>(1));
            } else {
                return;
            }
        }
        src.clear();
        lst.clear();
        // The sources' own objects.
        if (op == "assignr" || op == "newr" || op == "insr") {
            balance() += static_cast<long>(2 * (nargs - (op == "insr")));
            if (!is_counted_t<T>::value) {
                balance() = 0;
            }
        }
        observe(op, vi, x, ret);
    }
};

template <typename T>
std::unique_ptr<any_world> wide(std::uint64_t seed, std::size_t n, int cap) {
    switch (cap) {
        case 0: return std::make_unique<world<T, 0>>(seed, n);
        case 1: return std::make_unique<world<T, 1>>(seed, n);
        case 3: return std::make_unique<world<T, 3>>(seed, n);
        case 4: return std::make_unique<world<T, 4>>(seed, n);
        case 40: return std::make_unique<world<T, 40>>(seed, n);
        case 150: return std::make_unique<world<T, 150>>(seed, n);
        case 300: return std::make_unique<world<T, 300>>(seed, n);
        default: return std::make_unique<world<T, 9>>(seed, n);
    }
}
template <typename T>
std::unique_ptr<any_world> narrow(std::uint64_t seed, std::size_t n, int cap) {
    switch (cap) {
        case 3: return std::make_unique<world<T, 3>>(seed, n);
        default: return std::make_unique<world<T, 4>>(seed, n);
    }
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string type;
            std::uint64_t seed = 1;
            int cap = 0;
            std::size_t n = 0;
            is >> type >> cap >> seed >> n;
            w.reset();
            switch (type[0]) {
                case 'i': w = wide<int>(seed, n, cap); break;
                case 'c': w = wide<counted<4, 4>>(seed, n, cap); break;
                case 'y': w = narrow<signed char>(seed, n, cap); break;
                case 'C': w = narrow<counted<24, 8>>(seed, n, cap); break;
                case 'w': w = narrow<placed>(seed, n, cap); break;
                case 'A': w = narrow<counted<64, 64>>(seed, n, cap); break;
                default: w = narrow<plain<12, 4>>(seed, n, cap);
            }
            continue;
        }
        if (op.empty() || !w) {
            continue;
        }
        std::size_t v = 0;
        is >> v;
        std::vector<int> x;
        int k;
        while (is >> k) {
            x.push_back(k);
        }
        w->operate(op, v, x);
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
