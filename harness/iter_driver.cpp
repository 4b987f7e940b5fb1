// Conformance driver for iterators (C23, spec/Iterators.tla).
// Lines:
//   R type seed flat n            n elements, in one of the containers
//   R type seed jag n1 n2 ..      rows of a jagged vector
//   make k w, def k, inc h post, dec h post, adv h n, plus h n, copy h,
//   conv h, wrap h, base h, asg h o, get h n, put h n v, eq h o, walk h o
// Iterators are numbered from 1 in the order in which they appear.  What is
// out of range, or does not apply, is left out.
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <variant>

#include "cells.hpp"
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/device_array.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/static_array.hpp"
#include "vecmem/containers/static_vector.hpp"
#include "vecmem/containers/vector.hpp"
using namespace vp;

namespace {
upstream& mr() {
    static upstream u(0);
    return u;
}
struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};
template <typename T>
struct world : any_world {
    using jdv = vecmem::jagged_device_vector<T>;
    using p_t = T*;
    using P_t = const T*;
    using r_t = vecmem::details::reverse_iterator<T*>;
    using R_t = vecmem::details::reverse_iterator<const T*>;
    using F_t = typename jdv::iterator;
    using G_t = typename jdv::const_iterator;
    using s_t = typename jdv::reverse_iterator;
    using S_t = typename jdv::const_reverse_iterator;
    static_assert(std::is_convertible_v<r_t, R_t> && std::is_convertible_v<F_t, G_t> && !std::is_convertible_v<G_t, F_t>, "conversions");
    using any = std::variant<p_t, P_t, r_t, R_t, F_t, G_t, s_t, S_t>;
    static constexpr const char* kinds = "pPrRFGsS";
    struct entry {
        any i;
        long p;              // where it should be; only to leave out what is not allowed
        explicit entry(any x, long q) : i(std::move(x)), p(q) {}
    };
    rng r;
    std::vector<std::unique_ptr<entry>> its;
    bool flat;
    long n = 0;
    std::vector<std::pair<T*, long>> rows;
    // Containers.
    int which = 0;
    std::unique_ptr<vecmem::vector<T>> vec;
    std::unique_ptr<vecmem::array<T>> arr;
    std::unique_ptr<vecmem::static_vector<T, 20>> sv;
    std::unique_ptr<vecmem::device_vector<T>> dv;
    std::unique_ptr<vecmem::jagged_vector<T>> jag;
    std::unique_ptr<vecmem::data::jagged_vector_data<T>> data;
    std::unique_ptr<jdv> jd;
    std::unique_ptr<vecmem::jagged_device_vector<const T>> jc;

    world(std::uint64_t seed, bool f, const std::vector<std::size_t>& ns) : r(seed), flat(f) {
        guarded::restart();
        reset_world(1, seed);
        reg();
        places().top = 1ll << 26;
        if (flat) {
            n = static_cast<long>(ns.empty() ? 0 : ns[0]);
            which = static_cast<int>(r.below(4));
            if (which == 3 && n > 20) {
                which = 0;
            }
            const std::size_t m = static_cast<std::size_t>(n);
            T* b = nullptr;
            if (which == 0 || which == 1) {
                vec = std::make_unique<vecmem::vector<T>>(m, make<T>(0), &mr());
                b = vec->data();
                dv = std::make_unique<vecmem::device_vector<T>>(vecmem::get_data(*vec));
            } else if (which == 2) {
                arr = std::make_unique<vecmem::array<T>>(mr(), m);
                b = arr->data();
            } else {
                sv = std::make_unique<vecmem::static_vector<T, 20>>(m, make<T>(0));
                b = sv->data();
            }
            for (long i = 0; i < n; ++i) {
                rows.push_back({b + i, 1});
            }
        } else {
            n = static_cast<long>(ns.size());
            jag = std::make_unique<vecmem::jagged_vector<T>>(&mr());
            jag->resize(ns.size());
            for (std::size_t i = 0; i < ns.size(); ++i) {
                (*jag)[i].resize(ns[i], make<T>(0));
            }
            data = std::make_unique<vecmem::data::jagged_vector_data<T>>(vecmem::get_data(*jag, &mr()));
            jd = std::make_unique<jdv>(*data);
            jc = std::make_unique<vecmem::jagged_device_vector<const T>>(vecmem::data::jagged_vector_view<const T>(*data));
            for (auto& x : *jag) {
                rows.push_back({x.data(), static_cast<long>(x.size())});
            }
        }
        std::string s;
        for (std::size_t i = 0; i < rows.size(); ++i) {
            if (rows[i].second > 0) {
                set(*rows[i].first, static_cast<int>(r.below(100)));
            }
            s += std::string(i ? "," : "") + "[" + num(rows[i].second ? place(rows[i].first) : -1) + "," + num(rows[i].second) + "]";
        }
        emit("{\"e\":\"R\",\"rows\":[" + s + "],\"vals\":" + values() + "}");
    }
    ~world() override = default;
    long place(const T* p) const {
        const long long q = reg().pos(p);
        return q >= 0 ? static_cast<long>(q) : p == nullptr ? -1 : static_cast<long>(reinterpret_cast<std::uintptr_t>(p) & 0x3fffffff) + (1l << 30);
    }
    std::string values() const {
        std::vector<int> v;
        for (const auto& x : rows) {
            v.push_back(x.second ? get(*x.first) : kUnspec);
        }
        return list(v);
    }
    template <typename C>
    auto ends(C& c, int w) {           // begin or end of a container, in one of the ways
        return w == 0 ? c.begin() : c.end();
    }
    // Iterators at the ends.
    any at_end(char k, int w) {
        const int how = static_cast<int>(r.below(2));
        const auto from = [&](auto& c) -> any {
            const auto& d = c;
            switch (k) {
                case 'p': return p_t(&*c.begin() + (w ? n : 0));
                case 'P': return P_t(how ? &*d.begin() + (w ? n : 0) : &*c.cbegin() + (w ? n : 0));
                default: break;
            }
            if constexpr (std::is_same_v<decltype(c.rbegin()), r_t>) {
                if (k == 'r') {
                    return w ? c.rend() : c.rbegin();
                }
                return how ? R_t(w ? d.rend() : d.rbegin()) : R_t(w ? c.crend() : c.crbegin());
            } else {
                if (k == 'r') {
                    return r_t(w ? c.data() : c.data() + n);
                }
                return R_t(w ? d.data() : d.data() + n);
            }
        };
        if (flat) {
            switch (which) {
                case 0: return from(*dv);
                case 1: return from(*vec);
                case 2: return from(*arr);
                default: return from(*sv);
            }
        }
        jdv& c = *jd;
        const jdv& d = c;
        switch (k) {
            case 'F': return w ? c.end() : c.begin();
            case 'G':
                switch (r.below(5)) {
                    case 0: return w ? d.end() : d.begin();
                    case 1: return w ? c.cend() : c.cbegin();
                    case 2: return G_t(w ? jc->end() : jc->begin());
                    // From the description of the rows.
                    case 3: return G_t(static_cast<const vecmem::data::vector_view<T>*>(data->ptr()) + (w ? n : 0));
                    default: return w ? c.end() : c.begin(), G_t(w ? F_t(c.end()) : F_t(c.begin()));
                }
            case 's': return w ? c.rend() : c.rbegin();
            default:
                switch (r.below(4)) {
                    case 0: return w ? d.rend() : d.rbegin();
                    case 1: return w ? c.crend() : c.crbegin();
                    case 2: return S_t(w ? jc->rend() : jc->rbegin());
                    default: return S_t(w ? s_t(c.rend()) : s_t(c.rbegin()));
                }
        }
    }
    // Position k, counted from the front, as a plain iterator of some kind.
    template <typename I>
    I nth(long k) {
        if constexpr (std::is_same_v<I, p_t> || std::is_same_v<I, P_t>) {
            return rows.empty() ? I(base_) : I(rows[0].first + k);
        } else if constexpr (std::is_same_v<I, F_t> || std::is_same_v<I, G_t>) {
            return I(static_cast<const vecmem::data::vector_view<T>*>(data->ptr()) + k);
        } else {
            return I(nth<typename I::iterator_type>(k));
        }
    }
    T* base_ = nullptr;
    template <typename I>
    std::string where(const I& i, long p) {
        if (p == -1) {
            return "[-1]";
        }
        std::vector<int> eq;
        if (flat && rows.empty()) {
            return "[0]";
        }
        for (long k = 0; k <= n; ++k) {
            const I j = nth<I>(k);
            const bool e = i == j;
            if (e != (j == i) || e == (i != j) || e == (j != i)) {
                eq.push_back(1000);
            }
            if (e) {
                eq.push_back(static_cast<int>(k));
            }
        }
        return list(eq);
    }
    void event(const std::string& f) {
        std::string s;
        for (std::size_t i = 0; i < its.size(); ++i) {
            s += (i ? "," : "") + std::visit([&](const auto& x) { return where(x, its[i]->p); }, its[i]->i);
        }
        emit("{\"e\":\"op\"," + f + ",\"obs\":[" + s + "],\"vals\":" + values() + "}");
    }
    entry* at(std::size_t i) { return i >= 1 && i <= its.size() ? its[i - 1].get() : nullptr; }
    static long dir(const any& a) { return a.index() == 0 || a.index() == 1 || a.index() == 4 || a.index() == 5 ? 1 : -1; }
    static bool is_const(const any& a) { return a.index() % 2 == 1; }
    void add(any a, long p) { its.push_back(std::make_unique<entry>(std::move(a), p)); }

    // What is reached: elements are seen as rows of length one.
    template <typename I>
    std::pair<std::pair<const T*, long>, int> reach(const I& i, long m, int v, bool write) {
        using ref = decltype(*i);
        const T* w = nullptr;
        long len = 1;
        const auto put_in = [&](auto&& x) {        // x: element or row
            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, T>) {
                w = &x;
                if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) {
                    if (write) {
                        set(x, v);
                    }
                }
            } else {
                w = x.data();
                len = static_cast<long>(x.size());
                if (x.capacity() != x.size()) {
                    len = -7;
                }
                if constexpr (!std::is_const_v<typename std::decay_t<decltype(x)>::value_type> && !std::is_const_v<std::remove_pointer_t<decltype(x.data())>>) {
                    if (write) {
                        set(x[0], v);
                    }
                }
            }
        };
        (void)sizeof(ref);
        if (m == 0 && r.below(3) == 0) {
            put_in(*i);
        } else if (m == 0 && r.below(2)) {
            if constexpr (std::is_class_v<I>) {
                auto p = i.operator->();
                if constexpr (std::is_pointer_v<decltype(p)>) {
                    put_in(*p);
                } else {
                    const auto& q = p;
                    if (r.below(2)) {
                        w = i->data();
                        len = static_cast<long>(i->size());
                        if (write) {
                            put_in(*p.operator->());
                        }
                    } else if (write) {
                        put_in(*p.operator->());
                    } else {
                        put_in(*q.operator->());
                    }
                }
            } else {
                put_in(*i);
            }
        } else {
            put_in(i[m]);
        }
        const int x = len > 0 ? get(*w) : kUnspec;
        return {{w, len}, x};
    }
    void operate(const std::string& op, std::istringstream& is) override {
        const auto h_of = [&](std::size_t h) { return "\"op\":\"" + op + "\",\"h\":" + num(static_cast<long long>(h)); };
        if (op == "make" || op == "def") {
            char k;
            int w = 0;
            if (!(is >> k) || (op == "make" && !(is >> w)) || its.size() > 12) {
                return;
            }
            const bool fk = k == 'p' || k == 'P' || k == 'r' || k == 'R';
            if (fk != flat) {
                return;
            }
            if (op == "make") {
                const long d = k == 'p' || k == 'P' || k == 'F' || k == 'G' ? 1 : -1;
                if (flat && n == 0) {      // nothing to point at
                    return;
                }
                add(at_end(k, w), (w == 0) == (d == 1) ? 0 : n);
            } else {
                switch (k) {
                    case 'p': add(any(p_t()), -1); break;
                    case 'P': add(any(P_t()), -1); break;
                    case 'r': add(any(r_t()), -1); break;
                    case 'R': add(any(R_t()), -1); break;
                    case 'F': add(any(F_t()), -1); break;
                    case 'G': add(any(G_t()), -1); break;
                    case 's': add(any(s_t()), -1); break;
                    default: add(any(S_t()), -1);
                }
            }
            event("\"op\":\"" + op + "\",\"k\":\"" + k + "\",\"x\":[" + num(w) + "]");
            return;
        }
        std::size_t h;
        if (!(is >> h) || at(h) == nullptr) {
            return;
        }
        entry& e = *at(h);
        const bool room = its.size() < 14;
        if (op == "inc" || op == "dec") {
            int post = 0;
            const long d = (op == "inc" ? 1 : -1) * dir(e.i);
            if (!(is >> post) || e.p == -1 || e.p + d < 0 || e.p + d > n || (post && !room)) {
                return;
            }
            bool same = true;
            any old = e.i;
            std::visit(
                [&](auto& i) {
                    if (post) {
                        old = op == "inc" ? i++ : i--;
                    } else {
                        auto& x = op == "inc" ? ++i : --i;
                        same = &x == &i;
                    }
                },
                e.i);
            const long was = e.p;
            e.p += d;
            if (post) {
                add(old, was);
            }
            event(h_of(h) + ",\"x\":[" + num(post) + "],\"same\":" + num(same));
        } else if (op == "adv" || op == "plus") {
            long m = 0;
            if (!(is >> m) || e.p == -1 || e.p + m * dir(e.i) < 0 || e.p + m * dir(e.i) > n || (op == "plus" && !room)) {
                return;
            }
            const bool minus = m < 0 ? r.below(3) > 0 : r.below(3) == 0;      // also distances below zero
            bool same = true;
            if (op == "adv") {
                std::visit(
                    [&](auto& i) {
                        using I = std::decay_t<decltype(i)>;
                        if constexpr (std::is_same_v<I, F_t> || std::is_same_v<I, G_t>) {
                            if (r.below(4) == 0) {
                                std::advance(i, m);
                                return;
                            }
                        }
                        auto& x = minus ? (i -= -m) : (i += m);
                        same = &x == &i;
                    },
                    e.i);
                e.p += m * dir(e.i);
            } else {
                const any a = std::visit([&](const auto& i) -> any { return minus ? i - (-m) : i + m; }, e.i);
                add(a, e.p + m * dir(e.i));
            }
            event(h_of(h) + ",\"x\":[" + num(m) + "],\"same\":" + num(same));
        } else if (op == "copy" && room) {
            add(e.i, e.p);
            event(h_of(h));
        } else if (op == "conv" && room && !is_const(e.i)) {
            any a = std::visit(
                [&](const auto& i) -> any {
                    using I = std::decay_t<decltype(i)>;
                    if constexpr (std::is_same_v<I, p_t> || std::is_same_v<I, P_t>) {
                        return P_t(i);
                    } else if constexpr (std::is_same_v<I, r_t> || std::is_same_v<I, R_t>) {
                        return R_t(i);
                    } else if constexpr (std::is_same_v<I, F_t> || std::is_same_v<I, G_t>) {
                        return G_t(i);
                    } else {
                        const S_t s = i;
                        return s;
                    }
                },
                e.i);
            add(a, e.p);
            event(h_of(h));
        } else if (op == "wrap" && room && dir(e.i) == 1) {
            any a = std::visit(
                [&](const auto& i) -> any {
                    using I = std::decay_t<decltype(i)>;
                    if constexpr (std::is_same_v<I, p_t>) {
                        return r_t(i);
                    } else if constexpr (std::is_same_v<I, P_t>) {
                        return R_t(i);
                    } else if constexpr (std::is_same_v<I, F_t>) {
                        return s_t(i);
                    } else if constexpr (std::is_same_v<I, G_t>) {
                        return S_t(i);
                    } else {
                        return i;
                    }
                },
                e.i);
            add(a, e.p);
            event(h_of(h));
        } else if (op == "base" && room && dir(e.i) == -1) {
            any a = std::visit(
                [&](const auto& i) -> any {
                    using I = std::decay_t<decltype(i)>;
                    if constexpr (std::is_same_v<I, r_t> || std::is_same_v<I, R_t> || std::is_same_v<I, s_t> || std::is_same_v<I, S_t>) {
                        return i.base();
                    } else {
                        return i;
                    }
                },
                e.i);
            add(a, e.p);
            event(h_of(h));
        } else if (op == "get" || op == "put") {
            long m = 0;
            int v = 0;
            if (!(is >> m) || (op == "put" && !(is >> v)) || e.p == -1) {
                return;
            }
            const long t = dir(e.i) == 1 ? e.p + m : e.p - 1 - m;
            if (t < 0 || t >= n || (op == "put" && (is_const(e.i) || rows[static_cast<std::size_t>(t)].second == 0))) {
                return;
            }
            const auto got = std::visit([&](const auto& i) { return reach(i, m, v, op == "put"); }, e.i);
            event(h_of(h) + ",\"x\":[" + num(m) + "," + num(v) + "],\"got\":[" + num(got.first.second ? place(got.first.first) : -1) + "," + num(got.first.second) + "],\"v\":" + num(got.second));
        } else if (op == "asg" || op == "eq" || op == "walk") {
            std::size_t o;
            if (!(is >> o) || at(o) == nullptr) {
                return;
            }
            entry& f = *at(o);
            const auto with = h_of(h) + ",\"o\":" + num(static_cast<long long>(o));
            const bool same_kind = e.i.index() == f.i.index();
            if (op == "asg") {
                if (!same_kind && e.i.index() != f.i.index() + 1) {
                    return;
                }
                if (!same_kind && !is_const(e.i)) {
                    return;
                }
                std::visit(
                    [&](auto& a, auto& b) {
                        using A = std::decay_t<decltype(a)>;
                        using B = std::decay_t<decltype(b)>;
                        if constexpr (std::is_same_v<A, B> || (std::is_same_v<A, P_t> && std::is_same_v<B, p_t>) || (std::is_same_v<A, R_t> && std::is_same_v<B, r_t>) ||
                                      (std::is_same_v<A, G_t> && std::is_same_v<B, F_t>) || (std::is_same_v<A, S_t> && std::is_same_v<B, s_t>)) {
                            a = b;
                        }
                    },
                    e.i, f.i);
                e.p = f.p;
                event(with);
            } else if (op == "eq") {
                if (e.p == -1 || f.p == -1) {
                    return;
                }
                int x = -1, q = -1;
                std::visit(
                    [&](const auto& a, const auto& b) {
                        using A = std::decay_t<decltype(a)>;
                        using B = std::decay_t<decltype(b)>;
                        if constexpr (std::is_same_v<A, B> || (std::is_same_v<A, G_t> && std::is_same_v<B, F_t>)) {
                            x = a == b;
                            q = a != b;
                        }
                    },
                    e.i, f.i);
                if (x >= 0) {
                    event(with + ",\"r\":" + num(x) + ",\"q\":" + num(q));
                }
            } else {
                if (!same_kind || e.p == -1 || f.p == -1 || (f.p - e.p) * dir(e.i) < 0) {
                    return;
                }
                std::vector<int> seen;
                std::visit(
                    [&](auto a, const auto& b) {
                        if constexpr (std::is_same_v<decltype(a), std::decay_t<decltype(b)>>) {
                            const bool post = r.below(2) != 0;
                            long left = n + 3;
                            while (a != b && --left > 0) {
                                if constexpr (std::is_same_v<std::decay_t<decltype(*a)>, T>) {
                                    seen.push_back(static_cast<int>(place(post ? &*a++ : &*a)));
                                } else {
                                    auto x = post ? *a++ : *a;
                                    seen.push_back(x.size() ? static_cast<int>(place(x.data())) : -1);
                                }
                                if (!post) {
                                    ++a;
                                }
                            }
                        }
                    },
                    e.i, f.i);
                event(with + ",\"got\":" + list(seen));
            }
        } else if (op != "copy" && op != "conv" && op != "wrap" && op != "base") {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
    }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string type, kind;
            std::uint64_t seed = 1;
            is >> type >> seed >> kind;
            std::vector<std::size_t> ns;
            std::size_t x;
            while (is >> x) {
                ns.push_back(x);
            }
            w.reset();
            const bool flat = kind == "flat";
            switch (type[0]) {
                case 'i': w = std::make_unique<world<int>>(seed, flat, ns); break;
                case 'y': w = std::make_unique<world<signed char>>(seed, flat, ns); break;
                case 'A': w = std::make_unique<world<counted<64, 64>>>(seed, flat, ns); break;
                case 'p': w = std::make_unique<world<plain<12, 4>>>(seed, flat, ns); break;
                default: w = std::make_unique<world<counted<4, 4>>>(seed, flat, ns);
            }
            continue;
        }
        if (!op.empty() && w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
