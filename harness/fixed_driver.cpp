// Conformance driver for fixed-size arrays and tuples (C22, spec/Cells.tla).
// Lines:
//   R type seed         element type: i, y, c, C, A, p
//   own k n             s: static_array, a: array (size at run time),
//                       A: array (size in the type), v: variables, t/u: tuple
//   sub k o n           d/k: device_array (const) over the first n elements;
//                       w: tuple of references to all variables of o
//   copy k o, bind h o, asg h o, eqv h o, set h i v, fill h v, at h i
// What does not apply is left out.
#include <tuple>

#include "cells.hpp"
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/device_array.hpp"
#include "vecmem/containers/static_array.hpp"
#include "vecmem/utils/tuple.hpp"
using namespace vp;

namespace {
upstream& mr() {
    static upstream u(0);
    return u;
}
template <typename T>
struct array_like : handle {       // has contiguous elements
    virtual T* where() = 0;
    virtual vecmem::data::vector_view<T> view() { return {static_cast<unsigned>(this->n), where()}; }
};
template <typename C>
void read_array(C& c, readings& rd, std::size_t n, int& un) {
    un += c.size() != n || c.empty() != (n == 0);
    if (c.size() == n) {
        std::vector<int> a, b, d;
        rd.add(forward(c));
        for (std::size_t i = 0; i < n; ++i) {
            a.push_back(get(c[i]));
            b.push_back(get(c.at(i)));
            d.push_back(get(c.data()[i]));
        }
        rd.add(a);
        rd.add(b);
        rd.add(d);
        std::vector<int> g;
        for (auto i = c.rbegin(); i != c.rend(); ++i) {
            g.insert(g.begin(), get(*i));
        }
        rd.add(g);
        g.clear();
        for (auto i = c.cbegin(); i != c.cend(); ++i) {
            g.push_back(get(*i));
        }
        rd.add(g);
        g.clear();
        for (auto i = c.crbegin(); i != c.crend(); ++i) {
            g.insert(g.begin(), get(*i));
        }
        rd.add(g);
        un += static_cast<std::size_t>(c.end() - c.begin()) != n;
        for (std::size_t i = 0; i < n; ++i) {
            un += &c[i] != c.data() + i || &c.at(i) != c.data() + i || &*(c.begin() + static_cast<long>(i)) != c.data() + i;
        }
    }
}
template <typename C>
void read_ends(C& c, std::size_t n, int& un) {
    if (n > 0) {
        un += &c.front() != c.data() || &c.back() != c.data() + (n - 1);
    }
}
template <typename C>
bool set_in(C& c, std::size_t n, std::size_t i, int v, rng& r) {
    switch (r.below(6)) {
        case 0: set(c[i], v); break;
        case 1: set(c.at(i), v); break;
        case 2: set(*(c.begin() + static_cast<long>(i)), v); break;
        case 3: set(*(c.rbegin() + static_cast<long>(n - 1 - i)), v); break;
        case 4: set(c.data()[i], v); break;
        default: set(i == 0 ? c.front() : i + 1 == n ? c.back() : c[i], v);
    }
    return true;
}

template <typename T, std::size_t N>
struct static_h : array_like<T> {
    using arr = vecmem::static_array<T, N>;
    guarded mem{sizeof(arr), alignof(arr)};
    arr* p;
    static_h() { p = new (mem.p) arr{}; }
    explicit static_h(const arr& o) { p = new (mem.p) arr(o); }
    explicit static_h(const std::vector<int>& x) : static_h() {
        for (std::size_t i = 0; i < N; ++i) {
            vp::set(p->m_array[i], x[i]);
        }
    }
    ~static_h() override { p->~arr(); }
    T* where() override { return reinterpret_cast<T*>(mem.p); }
    template <std::size_t... I>
    static void gets(arr& a, readings& rd, int& un, std::index_sequence<I...>) {
        const arr& b = a;
        rd.add({get(vecmem::get<I>(a))...});
        rd.add({get(vecmem::get<I>(b))...});
        rd.add({get(a.template get<I>())...});
        rd.add({get(b.template get<I>())...});
        const bool same[] = {(&vecmem::get<I>(a) == &a.m_array[I])...};
        for (bool s : same) {
            un += !s;
        }
    }
    void read(readings& rd, std::vector<int>&, int& un) override {
        const arr& c = *p;
        read_array(*p, rd, N, un);
        read_array(c, rd, N, un);
        read_ends(*p, N, un);
        read_ends(c, N, un);
        gets(*p, rd, un, std::make_index_sequence<N>());
        un += p->data() != where() || p->max_size() != N;
    }
    bool set(std::size_t i, int v, rng& r) override { return set_in(*p, N, i, v, r); }
    bool fill(int v, rng&) override {
        const T t = make<T>(v);
        p->fill(t);
        return true;
    }
    int at(long i, int& v, rng& r) override {
        if (i < 0) {
            return 0;
        }
        const arr& c = *p;
        if (r.below(2)) {
            return checked([&] { return get(p->at(static_cast<std::size_t>(i))); }, v);
        }
        return checked([&] { return get(c.at(static_cast<std::size_t>(i))); }, v);
    }
    bool intact() override { return mem.intact(); }
};
template <typename T, typename A>
struct array_h : array_like<T> {
    A a;
    std::size_t m;
    array_h(std::size_t k, bool) : a(mr(), k), m(k) {}
    explicit array_h(std::size_t k) : a(mr()), m(k) {}
    T* where() override { return a.data(); }
    vecmem::data::vector_view<T> view() override { return vecmem::get_data(a); }
    void read(readings& rd, std::vector<int>&, int& un) override {
        const A& c = a;
        read_array(a, rd, m, un);
        read_array(c, rd, m, un);
        read_ends(a, m, un);
        read_ends(c, m, un);
        un += m > 0 && reinterpret_cast<std::uintptr_t>(a.data()) % alignof(T) != 0;
        const auto v = vecmem::get_data(a);
        const auto w = vecmem::get_data(c);
        un += v.size() != m || v.ptr() != a.data() || w.size() != m || w.ptr() != a.data();
    }
    bool set(std::size_t i, int v, rng& r) override { return set_in(a, m, i, v, r); }
    bool fill(int v, rng&) override {
        const T t = make<T>(v);
        a.fill(t);
        return true;
    }
    int at(long i, int& v, rng& r) override {
        const A& c = a;
        const bool k = r.below(2) != 0;
        if (i == -1) {
            return k ? checked([&] { return get(a.front()); }, v) : checked([&] { return get(c.front()); }, v);
        }
        if (i == -2) {
            return k ? checked([&] { return get(a.back()); }, v) : checked([&] { return get(c.back()); }, v);
        }
        const std::size_t j = static_cast<std::size_t>(i);
        return k ? checked([&] { return get(a.at(j)); }, v) : checked([&] { return get(c.at(j)); }, v);
    }
};
template <typename T>
struct device_any : array_like<T> {
    virtual bool bind(handle& o) = 0;
};
template <typename T, typename E, std::size_t N>      // E: T or const T
struct device_h : device_any<T> {
    using arr = vecmem::device_array<E, N>;
    arr a;
    explicit device_h(const vecmem::data::vector_view<T>& v) : a(v) {}
    explicit device_h(const arr& o) : a(o) {}
    T* where() override { return const_cast<T*>(a.data()); }
    void read(readings& rd, std::vector<int>&, int& un) override {
        const arr& c = a;
        read_array(a, rd, N, un);
        read_array(c, rd, N, un);
        read_ends(a, N, un);
        read_ends(c, N, un);
        un += a.max_size() != N;
    }
    bool set(std::size_t i, int v, rng& r) override {
        if constexpr (!std::is_const_v<E>) {
            return set_in(a, N, i, v, r);
        }
        return false;
    }
    bool bind(handle& o) override {
        auto* p = dynamic_cast<device_h*>(&o);
        if (p == nullptr) {
            return false;
        }
        a = p->a;
        return true;
    }
};

// ---------------------------------------------------------------- tuples ---
using cnt = counted<4, 4>;
template <int L, std::size_t I>
using elem = std::tuple_element_t<I, std::conditional_t<L == 1, std::tuple<int, signed char, cnt, double, short>, std::tuple<long, int, cnt, float, long>>>;
template <int L, typename S>
struct types;
template <int L, std::size_t... I>
struct types<L, std::index_sequence<I...>> {
    using own = vecmem::tuple<elem<L, I>...>;
    using ref = vecmem::tuple<elem<L, I>&...>;
    using var = std::tuple<elem<L, I>...>;
};
template <int L, std::size_t N>
using own_t = typename types<L, std::make_index_sequence<N>>::own;
template <int L, std::size_t N>
using ref_t = typename types<L, std::make_index_sequence<N>>::ref;
template <int L, std::size_t N>
using var_t = typename types<L, std::make_index_sequence<N>>::var;

template <typename T, std::size_t... I>
void read_tuple(T& t, readings& rd, std::index_sequence<I...>) {
    rd.add({get(vecmem::get<I>(t))...});
}
template <std::size_t I, typename T, typename F>
void visit(T& t, std::size_t i, std::size_t n, F f) {
    if (i == I) {
        f(t);
    }
}
template <typename T, std::size_t... I>
void set_tuple(T& t, std::size_t i, int v, std::index_sequence<I...>) {
    (void)std::initializer_list<int>{(i == I ? (set(vecmem::get<I>(t), v), 0) : 0)...};
}
template <typename T>
int head_tail(T& t, std::vector<int>& out) {
    out.push_back(get(t.m_head));
    return 0;
}
template <typename T>
void walk(const T& t, std::vector<int>& out, std::size_t n) {
    if constexpr (!std::is_same_v<std::decay_t<T>, vecmem::tuple<>>) {
        out.push_back(get(t.m_head));
        walk(t.m_tail, out, n - 1);
    }
}
template <std::size_t N>
struct var_h : handle {
    var_t<1, N> vars;
    template <std::size_t... I>
    var_h(const std::vector<int>& x, std::index_sequence<I...>) : vars(make<elem<1, I>>(x[I])...) {}
    template <std::size_t... I>
    void rd_(readings& rd, std::index_sequence<I...>) {
        rd.add({get(std::get<I>(vars))...});
    }
    void read(readings& rd, std::vector<int>&, int&) override { rd_(rd, std::make_index_sequence<N>()); }
    template <std::size_t... I>
    void set_(std::size_t i, int v, std::index_sequence<I...>) {
        (void)std::initializer_list<int>{(i == I ? (vp::set(std::get<I>(vars), v), 0) : 0)...};
    }
    bool set(std::size_t i, int v, rng&) override {
        set_(i, v, std::make_index_sequence<N>());
        return true;
    }
};
template <std::size_t N>
struct any_tuple : handle {
    virtual own_t<1, N>* one() { return nullptr; }
    virtual own_t<2, N>* two() { return nullptr; }
    virtual ref_t<1, N>* refs() { return nullptr; }
};
template <typename T, std::size_t N>
struct tuple_base : any_tuple<N> {
    guarded mem{sizeof(T), alignof(T)};
    T* p = nullptr;
    ~tuple_base() override {
        if (p != nullptr) {
            p->~T();
        }
    }
    void read(readings& rd, std::vector<int>&, int& un) override {
        const T& c = *p;
        read_tuple(*p, rd, std::make_index_sequence<N>());
        read_tuple(c, rd, std::make_index_sequence<N>());
        std::vector<int> w;
        walk(c, w, N);
        rd.add(w);
    }
    bool set(std::size_t i, int v, rng&) override {
        set_tuple(*p, i, v, std::make_index_sequence<N>());
        return true;
    }
    bool intact() override { return mem.intact(); }
};
template <int L, std::size_t N>
struct tuple_h : tuple_base<own_t<L, N>, N> {
    using T = own_t<L, N>;
    template <std::size_t... I>
    tuple_h(const std::vector<int>& x, rng& r, std::index_sequence<I...>) {
        static_assert((std::is_same_v<vecmem::tuple_element_t<I, T>, elem<L, I>> && ...), "types of the elements");
        switch (r.below(5)) {
            case 0: this->p = new (this->mem.p) T(make<elem<L, I>>(x[I])...); break;
            case 1: {
                std::tuple<elem<L, I>...> s(make<elem<L, I>>(x[I])...);
                this->p = new (this->mem.p) T(std::get<I>(s)...);
                break;
            }
            case 2: this->p = new (this->mem.p) T(vecmem::make_tuple(make<elem<L, I>>(x[I])...)); break;
            case 3: {  // default constructed, then written to
                this->p = new (this->mem.p) T();
                (void)std::initializer_list<int>{(set_(vecmem::get<I>(*this->p), x[I]), 0)...};
                break;
            }
            default: {
                if constexpr (N > 1) {  // head and tail
                    concat(x, std::make_index_sequence<N - 1>());
                } else {
                    this->p = new (this->mem.p) T(make<elem<L, I>>(x[I])...);
                }
            }
        }
    }
    template <typename E>
    static void set_(E& e, int v) { vp::set(e, v); }
    template <std::size_t... J>
    void concat(const std::vector<int>& x, std::index_sequence<J...>) {
        this->p = new (this->mem.p) T(make<elem<L, 0>>(x[0]), vecmem::tuple<elem<L, J + 1>...>(make<elem<L, J + 1>>(x[J + 1])...));
    }
    template <typename O>
    explicit tuple_h(const O& o, int) { this->p = new (this->mem.p) T(o); }
    own_t<1, N>* one() override {
        if constexpr (L == 1) {
            return this->p;
        }
        return nullptr;
    }
    own_t<2, N>* two() override {
        if constexpr (L == 2) {
            return this->p;
        }
        return nullptr;
    }
};
template <std::size_t N>
struct ref_h : tuple_base<ref_t<1, N>, N> {
    template <std::size_t... I>
    ref_h(var_t<1, N>& v, std::index_sequence<I...>) {
        this->p = new (this->mem.p) ref_t<1, N>(vecmem::tie(std::get<I>(v)...));
    }
    ref_t<1, N>* refs() override { return this->p; }
};

struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};
template <std::size_t V>
using size_c = std::integral_constant<std::size_t, V>;
template <typename F>
bool with_size(std::size_t n, F f) {
    switch (n) {
        case 1: f(size_c<1>()); return true;
        case 2: f(size_c<2>()); return true;
        case 3: f(size_c<3>()); return true;
        case 5: f(size_c<5>()); return true;
    }
    return false;
}
template <typename F>
bool with_array_size(std::size_t n, F f) {
    switch (n) {
        case 9: f(size_c<9>()); return true;
        case 34: f(size_c<34>()); return true;
    }
    return with_size(n, f);
}

template <typename T>
struct world : any_world {
    cells_world w;
    explicit world(std::uint64_t seed) { w.begin(seed); }
    ~world() override { w.drop(); }
    std::vector<int> values(std::size_t n) {
        std::vector<int> x;
        for (std::size_t i = 0; i < n; ++i) {
            x.push_back(static_cast<int>(w.r.below(120)));
        }
        return x;
    }
    void operate(const std::string& op, std::istringstream& is) override {
        if (w.hs.size() > 12 && (op == "own" || op == "sub" || op == "copy")) {
            return;
        }
        if (w.common(op, is)) {
            return;
        }
        if (op == "own") {
            char k;
            std::size_t n;
            if (!(is >> k >> n)) {
                return;
            }
            const std::vector<int> x = values(n);
            if (k == 's') {
                with_array_size(n, [&](auto c) { w.own(std::make_unique<static_h<T, c.value>>(x), 's', x, {}); });
            } else if (k == 'a') {
                w.own(std::make_unique<array_h<T, vecmem::array<T>>>(n, true), 'a', std::vector<int>(n, is_counted_t<T>::value ? kDefault : kUnspec), {});
            } else if (k == 'A') {
                with_array_size(n, [&](auto c) {
                    w.own(std::make_unique<array_h<T, vecmem::array<T, c.value>>>(n), 'A', std::vector<int>(n, is_counted_t<T>::value ? kDefault : kUnspec), {});
                });
            } else if (k == 'v') {
                with_size(n, [&](auto c) { w.own(std::make_unique<var_h<c.value>>(x, std::make_index_sequence<c.value>()), 'v', x, {}); });
            } else if (k == 't') {
                with_size(n, [&](auto c) { w.own(std::make_unique<tuple_h<1, c.value>>(x, w.r, std::make_index_sequence<c.value>()), 't', x, {}); });
            } else if (k == 'u') {
                with_size(n, [&](auto c) { w.own(std::make_unique<tuple_h<2, c.value>>(x, w.r, std::make_index_sequence<c.value>()), 'u', x, {}); });
            }
            return;
        }
        if (op == "sub") {
            char k;
            std::size_t o, n;
            if (!(is >> k >> o >> n) || w.get(o) == nullptr || n > w.get(o)->n) {
                return;
            }
            handle* p = w.get(o);
            if (k == 'd' || k == 'k') {
                auto* a = dynamic_cast<array_like<T>*>(p);
                if (a == nullptr || (p->kind == 'k' && k == 'd')) {
                    return;
                }
                with_array_size(n, [&](auto c) {
                    std::unique_ptr<handle> h;
                    auto v = a->view();
                    auto* same = dynamic_cast<device_h<T, T, c.value>*>(p);
                    if (k == 'd' && same != nullptr && w.r.below(2)) {
                        h = std::make_unique<device_h<T, T, c.value>>(same->a);
                    } else if (k == 'd') {
                        h = std::make_unique<device_h<T, T, c.value>>(v);
                    } else {
                        h = std::make_unique<device_h<T, const T, c.value>>(v);
                    }
                    w.sub(std::move(h), k, o, 0, n, false, {}, false);
                });
            } else if (k == 'w') {
                with_size(p->n, [&](auto c) {
                    auto* v = dynamic_cast<var_h<c.value>*>(p);
                    if (v != nullptr) {
                        w.sub(std::make_unique<ref_h<c.value>>(v->vars, std::make_index_sequence<c.value>()), 'w', o, 0, c.value, false, {}, false);
                    }
                });
            }
            return;
        }
        if (op == "copy") {
            char k;
            std::size_t o;
            if (!(is >> k >> o) || w.get(o) == nullptr) {
                return;
            }
            handle* p = w.get(o);
            with_array_size(p->n, [&](auto c) {
                constexpr std::size_t N = c.value;
                if (k == 's') {
                    if (auto* s = dynamic_cast<static_h<T, N>*>(p)) {
                        w.copied(std::make_unique<static_h<T, N>>(*s->p), 's', o);
                    }
                    return;
                }
                if constexpr (N <= 5) {
                auto* t = dynamic_cast<any_tuple<N>*>(p);
                if (t == nullptr || (k != 't' && k != 'u')) {
                    return;
                }
                std::unique_ptr<handle> h;
                const auto from = [&](const auto* x) {
                    if (x != nullptr) {
                        if (k == 't') {
                            h = std::make_unique<tuple_h<1, N>>(*x, 0);
                        } else {
                            h = std::make_unique<tuple_h<2, N>>(*x, 0);
                        }
                    }
                };
                from(static_cast<const own_t<1, N>*>(t->one()));
                from(static_cast<const own_t<2, N>*>(t->two()));
                from(static_cast<const ref_t<1, N>*>(t->refs()));
                if (h) {
                    w.copied(std::move(h), k, o);
                }
                }
            });
            return;
        }
        std::size_t hi, oi;
        if (!(is >> hi >> oi) || w.get(hi) == nullptr || w.get(oi) == nullptr || w.get(hi)->n != w.get(oi)->n) {
            return;
        }
        handle *h = w.get(hi), *o = w.get(oi);
        if (op == "bind") {
            auto* d = dynamic_cast<device_any<T>*>(h);
            if (d != nullptr && d->bind(*o)) {
                w.two("bind", hi, oi);
            }
        } else if (op == "asg") {
            with_array_size(h->n, [&](auto c) {
                constexpr std::size_t N = c.value;
                auto *a = dynamic_cast<static_h<T, N>*>(h), *b = dynamic_cast<static_h<T, N>*>(o);
                if (a != nullptr && b != nullptr) {
                    *a->p = *b->p;
                    w.two("asg", hi, oi);
                    return;
                }
                if constexpr (N <= 5) {
                auto *t = dynamic_cast<any_tuple<N>*>(h), *s = dynamic_cast<any_tuple<N>*>(o);
                if (t == nullptr || s == nullptr) {
                    return;
                }
                bool done = false;
                const auto to = [&](auto* x) {
                    if (x == nullptr) {
                        return;
                    }
                    if (s->one() != nullptr) {
                        *x = *static_cast<const own_t<1, N>*>(s->one());
                    } else if (s->two() != nullptr) {
                        *x = *static_cast<const own_t<2, N>*>(s->two());
                    } else {
                        *x = *static_cast<const ref_t<1, N>*>(s->refs());
                    }
                    done = true;
                };
                to(t->one());
                to(t->two());
                if (done) {
                    w.two("asg", hi, oi);
                }
                }
            });
        } else if (op == "eqv") {
            with_array_size(h->n, [&](auto c) {
                constexpr std::size_t N = c.value;
                auto *a = dynamic_cast<static_h<T, N>*>(h), *b = dynamic_cast<static_h<T, N>*>(o);
                if (a != nullptr && b != nullptr) {
                    const bool e = *a->p == *b->p, u = *a->p != *b->p;
                    w.two("eqv", hi, oi, ",\"r\":" + num(e) + ",\"q\":" + num(u));
                }
            });
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
    }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string type;
            std::uint64_t seed = 1;
            is >> type >> seed;
            w.reset();
            switch (type[0]) {
                case 'i': w = std::make_unique<world<int>>(seed); break;
                case 'y': w = std::make_unique<world<signed char>>(seed); break;
                case 'C': w = std::make_unique<world<counted<24, 8>>>(seed); break;
                case 'A': w = std::make_unique<world<counted<64, 64>>>(seed); break;
                case 'p': w = std::make_unique<world<plain<12, 4>>>(seed); break;
                default: w = std::make_unique<world<counted<4, 4>>>(seed);
            }
            continue;
        }
        if (!op.empty() && w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
