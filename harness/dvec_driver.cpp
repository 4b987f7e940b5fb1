// Conformance driver for device vectors (also those inside of jagged device
// vectors).  Lines:
//   R type seed jagged cap kind [cap kind]...   kind: r(esizable) or f(ixed)
//     type: i (int), y (signed char), l (long), c (counted, 4 bytes),
//           C (counted, 24 bytes), A (counted, aligned to 64), p (plain)
//   op v args...     the operations of spec/Seq.tla; those that are not
//                    allowed in the current state are left out
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "elements.hpp"
#include "vecmem/containers/data/jagged_vector_view.hpp"
#include "vecmem/containers/data/vector_view.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
using namespace vp;

namespace {
template <typename T>
struct world {
    using size_type = typename vecmem::data::vector_view<T>::size_type;
    using dv = vecmem::device_vector<T>;
    struct vec {
        unsigned cap = 0;
        bool fixed = false;
        guarded mem, size;
        vecmem::data::vector_view<T> view;
        std::vector<dv> handles;
        std::size_t n = 0;            // expected size, to leave out what is not allowed
    };
    std::vector<vec> vs;
    guarded inner;
    vecmem::data::jagged_vector_view<T> jview;
    std::unique_ptr<vecmem::jagged_device_vector<T>> jv;
    bool jagged;
    rng r;

    T* data(std::size_t i) { return reinterpret_cast<T*>(vs[i].mem.p); }
    world(std::uint64_t seed, bool j, const std::vector<std::pair<unsigned, char>>& shape) : jagged(j), r(seed) {
        guarded::restart();
        vs.resize(shape.size());
        for (std::size_t i = 0; i < shape.size(); ++i) {
            vec& v = vs[i];
            v.cap = shape[i].first;
            v.fixed = shape[i].second == 'f';
            v.mem = guarded(v.cap * sizeof(T), alignof(T));
            std::memset(v.mem.p, 0x3c, v.mem.n);
            v.size = guarded(sizeof(size_type), alignof(size_type));
            size_type zero = 0;
            std::memcpy(v.size.p, &zero, sizeof zero);
            if (v.fixed) {
                for (unsigned k = 0; k < v.cap; ++k) {
                    new (data(i) + k) T(make<T>(101 + static_cast<int>(k)));
                }
                v.n = v.cap;
                v.view = vecmem::data::vector_view<T>(v.cap, data(i));
            } else {
                v.view = vecmem::data::vector_view<T>(v.cap, reinterpret_cast<size_type*>(v.size.p), data(i));
            }
        }
        if (jagged) {
            using vv = vecmem::data::vector_view<T>;
            inner = guarded(sizeof(vv) * vs.size(), alignof(vv));
            vv* p = reinterpret_cast<vv*>(inner.p);
            for (std::size_t i = 0; i < vs.size(); ++i) {
                new (p + i) vv(vs[i].view);
            }
            jview = vecmem::data::jagged_vector_view<T>(vs.size(), p);
            jv = std::make_unique<vecmem::jagged_device_vector<T>>(jview);
        }
        lives().clear();
        balance() = 0;
        std::string s = "{\"e\":\"R\",\"counted\":" + num(is_counted_t<T>::value) + ",\"dflt\":" + num(default_of<T>()) + ",\"vs\":[";
        for (std::size_t i = 0; i < vs.size(); ++i) {
            std::vector<int> init;
            for (unsigned k = 0; k < vs[i].n; ++k) {
                init.push_back(101 + static_cast<int>(k));
            }
            s += std::string(i ? "," : "") + "{\"cap\":" + num(vs[i].cap) + ",\"fixed\":" + num(vs[i].fixed) + ",\"s\":" + list(init) + "}";
        }
        emit(s + "]}");
        observe("none", 1, {}, 0);
    }

    // A device vector for an operation: an old or a new one.
    dv handle(std::size_t i) {
        vec& v = vs[i];
        if (jagged) {
            vecmem::jagged_device_vector<T> other(*jv);
            if (r.below(3) == 0) {
                *jv = other;
            }
            if (r.below(4) == 0) {
                jv = std::make_unique<vecmem::jagged_device_vector<T>>(jview);
            }
            switch (r.below(6)) {
                case 0: return (*jv)[i];
                case 1: return other.at(i);
                case 2: return *(jv->begin() + static_cast<long>(i));
                case 3: return jv->begin()[static_cast<long>(i)];
                case 4: return i == 0 ? jv->front() : i + 1 == vs.size() ? jv->back() : (*jv)[i];
                default: return *(jv->rbegin() + static_cast<long>(vs.size() - 1 - i));
            }
        }
        if (v.handles.empty() || r.below(4) == 0) {
            v.handles.push_back(dv(v.view));
        }
        const std::size_t k = r.below(v.handles.size());
        if (r.below(4) == 0) {
            v.handles.push_back(dv(v.handles[k]));
        }
        if (r.below(5) == 0) {
            v.handles[k] = v.handles[r.below(v.handles.size())];
        }
        if (v.handles.size() > 6) {
            v.handles.erase(v.handles.begin() + static_cast<long>(r.below(v.handles.size())));
        }
        return v.handles[r.below(v.handles.size())];
    }

    std::string slot(const void* p) {
        for (std::size_t i = 0; i < vs.size(); ++i) {
            const char* c = static_cast<const char*>(p);
            if (c >= vs[i].mem.p && c < vs[i].mem.p + vs[i].mem.n) {
                const std::size_t off = static_cast<std::size_t>(c - vs[i].mem.p);
                if (off % sizeof(T) == 0) {
                    return num(static_cast<long long>(i + 1)) + "," + num(static_cast<long long>(off / sizeof(T)));
                }
            }
        }
        return "0,-1";
    }
    void observe(const std::string& op, std::size_t v, const std::vector<int>& x, long long result) {
        const long bal = balance();
        std::string s = "{\"e\":\"op\",\"op\":\"" + op + "\",\"v\":" + num(static_cast<long long>(v)) + ",\"x\":" + list(x) + ",\"r\":" + num(result) + ",\"bal\":" + num(bal) +
                        ",\"lt\":" + take_lives([this](const void* p) { return slot(p); });
        balance() = 0;
        bool ok = !jagged || inner.intact();
        s += ",\"obs\":[";
        for (std::size_t i = 0; i < vs.size(); ++i) {
            vec& w = vs[i];
            ok = ok && w.mem.intact() && w.size.intact();
            size_type raw;
            std::memcpy(&raw, w.size.p, sizeof raw);
            readings rd;
            int un = 0;
            dv a = handle(i);
            const dv b = a;
            un += raw != (w.fixed ? 0 : a.size());
            if (a.size() > w.cap) {
                rd.add({-1});
            } else {
                read_all(a, rd, un);
                read_all(b, rd, un);
                // Through constant views, and constant jagged vectors.
                const vecmem::data::vector_view<const T> cv(w.view);
                const vecmem::device_vector<const T> c(cv);
                read_all(c, rd, un);
                un += c.capacity() != w.cap || cv.capacity() != w.cap || cv.size() != a.size();
                for (dv& h : w.handles) {
                    un += h.capacity() != w.cap;
                    rd.add(forward(h));
                }
                if (jagged) {
                    const vecmem::jagged_device_vector<T> cj(*jv);
                    const auto e = cj[i];
                    rd.add(forward(e));
                    const auto f = cj.at(i);
                    rd.add(forward(f));
                    const auto g = *(cj.begin() + static_cast<long>(i));
                    rd.add(forward(g));
                    un += cj.size() != vs.size() || cj.empty() || cj.max_size() != vs.size() || cj.capacity() != vs.size();
                }
            }
            un += w.view.capacity() != w.cap;
            un += w.view.size() != a.size();
            s += std::string(i ? "," : "") + "{\"cap\":" + num(a.capacity()) + ",\"sz\":" + num(a.size()) + ",\"un\":" + num(un) + ",\"rd\":" + rd.str() + "}";
        }
        emit(s + "],\"g\":" + num(ok) + "}");
    }

    void operate(const std::string& op, std::size_t vi, std::vector<int> x) {
        if (vi < 1 || vi > vs.size()) {
            return;
        }
        vec& v = vs[vi - 1];
        const std::size_t n = v.n, cap = v.cap;
        auto arg = [&](std::size_t k) { return static_cast<std::size_t>(x.at(k)); };
        auto enough = [&](std::size_t k) { return x.size() >= k; };
        if (op != "set" && v.fixed) {
            return;
        }
        if ((op == "pop" && n == 0) || (op == "push" && (!enough(1) || n >= cap)) || (op == "pusha" && (!enough(1) || x[0] < 0 || arg(0) >= n || n >= cap)) ||
            ((op == "bulk" || op == "impl") && (!enough(1) || x[0] < 0 || n + arg(0) > cap)) || (op == "bulkv" && (!enough(2) || n + arg(0) > cap)) ||
            (op == "bulka" && (!enough(2) || n + arg(0) > cap || x[1] < 0 || arg(1) >= n)) || ((op == "resize" || op == "resimp") && (!enough(1) || arg(0) > cap)) ||
            ((op == "resizev" || op == "assign") && (!enough(2) || arg(0) > cap)) || (op == "resizea" && (!enough(2) || arg(0) > cap || x[1] < 0 || arg(1) >= n || arg(0) <= arg(1))) ||
            (op == "assignr" && x.size() > cap) || (op == "set" && (!enough(2) || x[0] < 0 || arg(0) >= n))) {
            return;
        }
        if ((op == "impl" || op == "resimp") && !is_implicit<T>) {
            return;
        }
        dv d = handle(vi - 1);
        lives().clear();
        balance() = 0;
        long long ret = 0;
        const auto un = [](std::size_t k) { return static_cast<typename dv::size_type>(k); };
        if (op == "push") {
            if (r.below(2)) {
                const T t = make<T>(x[0]);
                ret = d.push_back(t);
            } else if (r.below(2)) {
                T& t = d.emplace_back(make<T>(x[0]));
                ret = &t - data(vi - 1);
            } else if constexpr (is_counted_t<T>::value) {
                T& t = d.emplace_back(x[0] - 3, 3);
                ret = &t - data(vi - 1);
            } else {
                ret = d.push_back(make<T>(x[0]));
            }
        } else if (op == "pusha") {
            if (r.below(2)) {
                ret = d.push_back(d[un(arg(0))]);
            } else {
                ret = &d.emplace_back(d[un(arg(0))]) - data(vi - 1);
            }
        } else if (op == "bulk") {
            ret = d.bulk_append(un(arg(0)));
        } else if (op == "bulkv") {
            ret = d.bulk_append(un(arg(0)), make<T>(x[1]));
        } else if (op == "bulka") {
            ret = d.bulk_append(un(arg(0)), d[un(arg(1))]);
        } else if (op == "impl") {
            if constexpr (is_implicit<T>) {
                ret = r.below(2) ? d.bulk_append_implicit(un(arg(0))) : d.bulk_append_implicit_unsafe(un(arg(0)));
            }
        } else if (op == "resimp") {
            if constexpr (is_implicit<T>) {
                if (r.below(2)) {
                    d.resize_implicit(un(arg(0)));
                } else {
                    d.resize_implicit_unsafe(un(arg(0)));
                }
            }
        } else if (op == "pop") {
            ret = d.pop_back();
        } else if (op == "clear") {
            d.clear();
        } else if (op == "resize") {
            d.resize(un(arg(0)));
        } else if (op == "resizev") {
            d.resize(un(arg(0)), make<T>(x[1]));
        } else if (op == "resizea") {
            d.resize(un(arg(0)), d[un(arg(1))]);
        } else if (op == "assign") {
            d.assign(un(arg(0)), make<T>(x[1]));
        } else if (op == "assignr") {
            const std::vector<int> src(x);
            if (r.below(2)) {
                std::vector<T> t;
                t.reserve(src.size());
                for (int k : src) {
                    t.push_back(make<T>(k));
                }
                lives().clear();
                d.assign(t.begin(), t.end());
            } else {
                std::vector<T> t;
                t.reserve(src.size());
                for (int k : src) {
                    t.push_back(make<T>(k));
                }
                lives().clear();
                d.assign(static_cast<const T*>(t.data()), static_cast<const T*>(t.data() + t.size()));
            }
        } else if (op == "set") {
            const std::size_t i = arg(0);
            switch (r.below(7)) {
                case 0: set(d[un(i)], x[1]); break;
                case 1: set(d.at(un(i)), x[1]); break;
                case 2: set(*(d.begin() + static_cast<long>(i)), x[1]); break;
                case 3: set(*(d.rbegin() + static_cast<long>(n - 1 - i)), x[1]); break;
                case 4: set(d.data()[i], x[1]); break;
                case 5: set(i == 0 ? d.front() : i + 1 == n ? d.back() : d[un(i)], x[1]); break;
                default: set(v.view.ptr()[i], x[1]);
            }
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
        observe(op, vi, x, ret);
        v.n = d.size();
    }
};

struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::size_t, std::vector<int>) = 0;
};
template <typename T>
struct world_of : any_world {
    world<T> w;
    template <typename... A>
    explicit world_of(A&&... a) : w(std::forward<A>(a)...) {}
    void operate(const std::string& op, std::size_t v, std::vector<int> x) override { w.operate(op, v, x); }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string type;
            std::uint64_t seed = 1;
            int jagged = 0;
            is >> type >> seed >> jagged;
            std::vector<std::pair<unsigned, char>> shape;
            unsigned cap;
            char kind;
            while (is >> cap >> kind) {
                shape.emplace_back(cap, kind);
            }
            w.reset();
            switch (type[0]) {
                case 'i': w = std::make_unique<world_of<int>>(seed, jagged, shape); break;
                case 'y': w = std::make_unique<world_of<signed char>>(seed, jagged, shape); break;
                case 'l': w = std::make_unique<world_of<long>>(seed, jagged, shape); break;
                case 'C': w = std::make_unique<world_of<counted<24, 8>>>(seed, jagged, shape); break;
                case 'w': w = std::make_unique<world_of<placed>>(seed, jagged, shape); break;
                case 'A': w = std::make_unique<world_of<counted<64, 64>>>(seed, jagged, shape); break;
                case 'p': w = std::make_unique<world_of<plain<12, 4>>>(seed, jagged, shape); break;
                default: w = std::make_unique<world_of<counted<4, 4>>>(seed, jagged, shape);
            }
            continue;
        }
        if (op.empty() || !w) {
            continue;
        }
        std::size_t v = 0;
        is >> v;
        std::vector<int> x;
        int k;
        while (is >> k) {
            x.push_back(k);
        }
        w->operate(op, v, x);
    }
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
