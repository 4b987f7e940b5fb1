// Conformance driver for views (C23, spec/Cells.tla).
// Lines:
//   R type seed             element type: i, y, c, C, A, p
//   own k n                 m: vecmem::vector, n: std::vector, f: vecmem::array,
//                           b: vector_buffer, B: resizable one, z: resizable
//                           view of memory with a size variable
//   own k n1 n2 ..          j: jagged_vector, J: vector of vectors,
//                           g: jagged_vector_buffer
//   sub k o                 v/c: vector_view (of constants), d/e: device_vector
//                           (of constants), D/E: jagged_vector_data, V/W:
//                           jagged_vector_view, X/Y: jagged_device_vector; all of o
//   cut k o a n             v/c of n elements of o, from a on
//   zed k o a n h           v/c of n elements of o, from a on, with a size
//                           variable: of its own (h = 0) or that of h
//   row k o i               v/c/d/e of a row of o
//   rows k o a n            V/W of n rows of o, from a on
//   bind h o, eqm h o, set h i v, fill h v, size h n, mv h
// What does not apply is left out.
#include "cells.hpp"
#include "vecmem/containers/array.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
using namespace vp;

namespace {
upstream& mr(int i = 0) {
    static upstream u(0), w(1);
    return i ? w : u;
}
template <typename T>
using view = vecmem::data::vector_view<T>;
template <typename T>
using jview = vecmem::data::jagged_vector_view<T>;

// What a handle can provide.  (Views are handed out as references to the view
// itself if there is one, for comparisons and for assignments.)
template <typename T>
struct thing : handle {
    std::vector<int> sh;
    virtual view<T>* v1() { return nullptr; }
    virtual view<const T>* c1() { return nullptr; }
    virtual jview<T>* vj() { return nullptr; }
    virtual jview<const T>* cj() { return nullptr; }
    virtual bool jagged() const { return false; }
    virtual bool bind(thing&, rng&) { return false; }
    virtual bool resize(std::size_t) { return false; }
    std::size_t offset(std::size_t row) const {
        std::size_t s = 0;
        for (std::size_t i = 0; i < row; ++i) {
            s += static_cast<std::size_t>(sh[i]);
        }
        return s;
    }
    std::pair<std::size_t, std::size_t> locate(std::size_t i) const {
        std::size_t row = 0;
        while (i >= static_cast<std::size_t>(sh[row])) {
            i -= static_cast<std::size_t>(sh[row++]);
        }
        return {row, i};
    }
};
template <typename V>
void read_view(const V& v, readings& rd, std::vector<int>& shape, int& un, std::size_t n, bool resizable) {
    un += v.capacity() != n || (v.size_ptr() != nullptr) != resizable;
    V w = v;
    un += w.ptr() != v.ptr() || w.size_ptr() != v.size_ptr() || w.size() != v.size() || w != v || !(w == v);
    const std::size_t m = v.size();
    if (resizable) {
        shape = {static_cast<int>(m)};
        un += *v.size_ptr() != m;
    } else {
        un += m != n;
    }
    if (m <= n) {
        std::vector<int> a, b;
        for (std::size_t i = 0; i < m; ++i) {
            a.push_back(get(v.ptr()[i]));
            b.push_back(get(w.ptr()[i]));
        }
        rd.add(a);
        rd.add(b);
    } else {
        un += 1;
    }
}
template <typename V>
void read_jview(const V& v, readings& rd, std::vector<int>& shape, int& un) {
    un += v.capacity() != v.size();
    V w = v;
    un += w.size() != v.size() || w.ptr() != v.ptr() || w.host_ptr() != v.host_ptr() || w != v || !(w == v);
    std::vector<int> a, b, c;
    for (std::size_t i = 0; i < v.size(); ++i) {
        const auto& row = v.ptr()[i];
        shape.push_back(static_cast<int>(row.size()));
        un += row.capacity() != row.size() || row.size_ptr() != nullptr;
        for (std::size_t k = 0; k < row.size(); ++k) {
            a.push_back(get(row.ptr()[k]));
            b.push_back(get(w.ptr()[i].ptr()[k]));
            c.push_back(get(v.host_ptr()[i].ptr()[k]));
        }
    }
    rd.add(a);
    rd.add(b);
    rd.add(c);
}
template <typename C>
void read_rows(C& c, readings& rd, std::vector<int>& shape, int& un) {
    const std::size_t n = c.size();
    un += c.empty() != (n == 0) || c.capacity() != n || c.max_size() != n;
    std::vector<int> a[5];
    const auto add = [&](std::vector<int>& x, auto&& row) {
        for (std::size_t k = 0; k < row.size(); ++k) {
            x.push_back(get(row[static_cast<unsigned>(k)]));
        }
    };
    for (std::size_t i = 0; i < n; ++i) {
        shape.push_back(static_cast<int>(c[i].size()));
        add(a[0], c[i]);
        add(a[1], c.at(i));
        add(a[2], *(c.begin() + static_cast<long>(i)));
        add(a[3], i == 0 ? c.front() : i + 1 == n ? c.back() : c[i]);
    }
    for (auto&& row : c) {
        add(a[4], row);
    }
    for (const auto& x : a) {
        rd.add(x);
    }
    std::vector<int> b;
    for (auto i = c.rbegin(); i != c.rend(); ++i) {
        std::vector<int> x;
        add(x, *i);
        b.insert(b.begin(), x.begin(), x.end());
    }
    rd.add(b);
    if (n > 0) {
        readings q;
        std::vector<int> f, l;
        add(f, c.front());
        add(l, c.back());
        un += f != std::vector<int>(a[0].begin(), a[0].begin() + static_cast<long>(f.size()));
        un += l != std::vector<int>(a[0].end() - static_cast<long>(l.size()), a[0].end());
    }
}

// ------------------------------------------------------------- owning ------
template <typename T, typename C>
struct vector_h : thing<T> {          // containers that get_data() works with
    C c;
    template <typename... A>
    explicit vector_h(A&&... a) : c(std::forward<A>(a)...) {}
    void read(readings& rd, std::vector<int>&, int& un) override {
        const C& k = c;
        un += c.size() != this->n;
        std::vector<int> a, b;
        for (std::size_t i = 0; i < this->n; ++i) {
            a.push_back(get(c[i]));
            b.push_back(get(k.data()[i]));
        }
        rd.add(a);
        rd.add(b);
    }
    bool set(std::size_t i, int v, rng& r) override {
        vp::set(r.below(2) ? c[i] : c.data()[i], v);
        return true;
    }
};
template <typename T>
struct memory_h : thing<T> {          // memory with a size variable
    guarded mem, sz;
    view<T> v;
    explicit memory_h(const std::vector<int>& x) : mem(sizeof(T) * x.size() + 1, alignof(T)), sz(sizeof(unsigned), alignof(unsigned)) {
        for (std::size_t i = 0; i < x.size(); ++i) {
            vp::set(*new (mem.p + i * sizeof(T)) T(make<T>(0)), x[i]);
        }
        *reinterpret_cast<unsigned*>(sz.p) = static_cast<unsigned>(x.size());
        v = view<T>(static_cast<unsigned>(x.size()), reinterpret_cast<unsigned*>(sz.p), reinterpret_cast<T*>(mem.p));
    }
    ~memory_h() override {
        for (std::size_t i = 0; i < this->n; ++i) {
            reinterpret_cast<T*>(mem.p)[i].~T();
        }
    }
    view<T>* v1() override { return &v; }
    void read(readings& rd, std::vector<int>& shape, int& un) override { read_view(v, rd, shape, un, this->n, true); }
    bool set(std::size_t i, int x, rng&) override {
        vp::set(reinterpret_cast<T*>(mem.p)[i], x);
        return true;
    }
    bool resize(std::size_t k) override {
        *reinterpret_cast<unsigned*>(sz.p) = static_cast<unsigned>(k);
        return true;
    }
    bool intact() override { return mem.intact() && sz.intact(); }
};
template <typename T>
struct buffer_h : thing<T> {
    using buf = vecmem::data::vector_buffer<T>;
    buf b;
    buffer_h(const std::vector<int>& x, bool rs, bool sh)
        : b(static_cast<unsigned>(x.size()), mr(), rs ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size) {
        (void)sh;
        for (std::size_t i = 0; i < x.size(); ++i) {
            vp::set(*new (b.ptr() + i) T(make<T>(0)), x[i]);
        }
        if (rs && b.size_ptr() != nullptr) {
            *b.size_ptr() = static_cast<unsigned>(x.size());
        }
    }
    ~buffer_h() override {
        for (std::size_t i = 0; i < this->n; ++i) {
            b.ptr()[i].~T();
        }
    }
    view<T>* v1() override { return &vecmem::get_data(b); }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        const buf& c = b;
        un += &vecmem::get_data(c) != &static_cast<const view<T>&>(c);
        read_view(static_cast<const view<T>&>(vecmem::get_data(c)), rd, shape, un, this->n, this->resizable);
    }
    bool set(std::size_t i, int x, rng&) override {
        vp::set(b.ptr()[i], x);
        return true;
    }
    bool resize(std::size_t k) override {
        if (!this->resizable) {
            return false;
        }
        *b.size_ptr() = static_cast<unsigned>(k);
        return true;
    }
};
template <typename T, typename C>
struct rows_h : thing<T> {            // vectors of vectors
    C c;
    template <typename... A>
    rows_h(const std::vector<int>& x, const std::vector<int>& shape, A&&... a) : c(std::forward<A>(a)...) {
        c.resize(shape.size());
        std::size_t k = 0;
        for (std::size_t i = 0; i < shape.size(); ++i) {
            for (int m = 0; m < shape[i]; ++m) {
                c[i].push_back(make<T>(x[k++]));
            }
        }
    }
    bool jagged() const override { return true; }
    void read(readings& rd, std::vector<int>& shape, int&) override {
        std::vector<int> a;
        for (auto& row : c) {
            shape.push_back(static_cast<int>(row.size()));
            for (auto& e : row) {
                a.push_back(get(e));
            }
        }
        rd.add(a);
    }
    bool set(std::size_t i, int v, rng&) override {
        const auto p = this->locate(i);
        vp::set(c[p.first][p.second], v);
        return true;
    }
};
template <typename T>
struct rows_buffer_h : thing<T> {
    using buf = vecmem::data::jagged_vector_buffer<T>;
    buf b;
    rows_buffer_h(const std::vector<int>& x, const std::vector<int>& shape) : b(std::vector<std::size_t>(shape.begin(), shape.end()), mr()) {
        std::size_t k = 0;
        for (std::size_t i = 0; i < shape.size(); ++i) {
            for (int m = 0; m < shape[i]; ++m) {
                vp::set(*new (b.host_ptr()[i].ptr() + m) T(make<T>(0)), x[k++]);
            }
        }
    }
    ~rows_buffer_h() override {
        for (std::size_t i = 0; i < this->sh.size(); ++i) {
            for (int m = 0; m < this->sh[i]; ++m) {
                b.host_ptr()[i].ptr()[m].~T();
            }
        }
    }
    bool jagged() const override { return true; }
    jview<T>* vj() override { return &vecmem::get_data(b); }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        const buf& c = b;
        read_jview(static_cast<const jview<T>&>(vecmem::get_data(c)), rd, shape, un);
    }
    bool set(std::size_t i, int v, rng& r) override {
        const auto p = this->locate(i);
        vp::set((r.below(2) ? b.ptr() : b.host_ptr())[p.first].ptr()[p.second], v);
        return true;
    }
};

// -------------------------------------------------------------- views ------
template <typename T, typename E>
struct view_h : thing<T> {            // E: T or const T
    view<E> v;
    std::unique_ptr<guarded> sz;      // its own size variable, if it has one
    explicit view_h(const view<E>& x) : v(x) {}
    bool intact() override { return !sz || sz->intact(); }
    view<T>* v1() override {
        if constexpr (std::is_same_v<T, E>) {
            return &v;
        }
        return nullptr;
    }
    view<const T>* c1() override {
        if constexpr (!std::is_same_v<T, E>) {
            return &v;
        }
        return nullptr;
    }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        read_view(v, rd, shape, un, this->n, this->resizable);
        const vecmem::device_vector<E> d(v);
        readings more;
        read_all(d, more, un);
        for (auto& x : more.all) {
            rd.add(x);
        }
    }
    bool set(std::size_t i, int x, rng&) override {
        if constexpr (std::is_same_v<T, E>) {
            vp::set(v.ptr()[i], x);
            return true;
        }
        return false;
    }
    bool resize(std::size_t k) override {
        if constexpr (std::is_same_v<T, E>) {
            if (v.size_ptr() != nullptr) {
                *v.size_ptr() = static_cast<unsigned>(k);
                return true;
            }
        }
        return false;
    }
    bool bind(thing<T>& o, rng&) override {
        if constexpr (!std::is_same_v<T, E>) {
            if (o.c1() != nullptr) {
                v = *o.c1();
                return true;
            }
        }
        if (o.v1() == nullptr) {
            return false;
        }
        v = *o.v1();
        return true;
    }
};
template <typename T, typename E>
struct device_h : thing<T> {
    using dev = vecmem::device_vector<E>;
    dev d;
    explicit device_h(const dev& x) : d(x) {}
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        const dev& c = d;
        un += d.capacity() != this->n;
        if (this->resizable) {
            shape = {static_cast<int>(d.size())};
        }
        if (d.size() <= this->n) {
            read_all(d, rd, un);
            read_all(c, rd, un);
        } else {
            un += 1;
        }
    }
    bool set(std::size_t i, int v, rng& r) override {
        if constexpr (std::is_same_v<T, E>) {
            if (i >= d.size()) {
                return false;
            }
            const long k = static_cast<long>(i);
            switch (r.below(5)) {
                case 0: vp::set(d[static_cast<unsigned>(i)], v); break;
                case 1: vp::set(d.at(static_cast<unsigned>(i)), v); break;
                case 2: vp::set(*(d.begin() + k), v); break;
                case 3: vp::set(d.rbegin()[static_cast<long>(d.size()) - 1 - k], v); break;
                default: vp::set(d.data()[i], v);
            }
            return true;
        }
        return false;
    }
    bool bind(thing<T>& o, rng&) override {
        auto* p = dynamic_cast<device_h*>(&o);
        if (p == nullptr) {
            return false;
        }
        d = p->d;
        return true;
    }
};
template <typename T, typename E>
struct data_h : thing<T> {
    vecmem::data::jagged_vector_data<E> d;
    bool wrong;
    data_h(vecmem::data::jagged_vector_data<E>&& x, bool w) : d(std::move(x)), wrong(w) {}
    bool jagged() const override { return true; }
    jview<T>* vj() override {
        if constexpr (std::is_same_v<T, E>) {
            return &vecmem::get_data(d);
        }
        return nullptr;
    }
    jview<const T>* cj() override {
        if constexpr (!std::is_same_v<T, E>) {
            return &vecmem::get_data(d);
        }
        return nullptr;
    }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        const auto& c = d;
        un += wrong;
        read_jview(static_cast<const jview<E>&>(vecmem::get_data(c)), rd, shape, un);
    }
    bool set(std::size_t i, int v, rng& r) override {
        if constexpr (std::is_same_v<T, E>) {
            const auto p = this->locate(i);
            vp::set((r.below(2) ? d.ptr() : d.host_ptr())[p.first].ptr()[p.second], v);
            return true;
        }
        return false;
    }
};
template <typename T, typename E>
struct jview_h : thing<T> {
    jview<E> v;
    explicit jview_h(const jview<E>& x) : v(x) {}
    bool jagged() const override { return true; }
    jview<T>* vj() override {
        if constexpr (std::is_same_v<T, E>) {
            return &v;
        }
        return nullptr;
    }
    jview<const T>* cj() override {
        if constexpr (!std::is_same_v<T, E>) {
            return &v;
        }
        return nullptr;
    }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        read_jview(v, rd, shape, un);
        const vecmem::jagged_device_vector<E> d(v);
        readings more;
        std::vector<int> sh2;
        read_rows(d, more, sh2, un);
        un += sh2 != shape;
        for (auto& x : more.all) {
            rd.add(x);
        }
    }
    bool set(std::size_t i, int x, rng& r) override {
        if constexpr (std::is_same_v<T, E>) {
            const auto p = this->locate(i);
            vp::set((r.below(2) ? v.ptr() : v.host_ptr())[p.first].ptr()[p.second], x);
            return true;
        }
        return false;
    }
    bool bind(thing<T>& o, rng&) override {
        if constexpr (!std::is_same_v<T, E>) {
            if (o.cj() != nullptr) {
                v = *o.cj();
                return true;
            }
        }
        if (o.vj() == nullptr) {
            return false;
        }
        v = *o.vj();
        return true;
    }
};
template <typename T, typename E>
struct jdevice_h : thing<T> {
    using dev = vecmem::jagged_device_vector<E>;
    dev d;
    explicit jdevice_h(const dev& x) : d(x) {}
    bool jagged() const override { return true; }
    void read(readings& rd, std::vector<int>& shape, int& un) override {
        const dev& c = d;
        std::vector<int> s2;
        read_rows(d, rd, shape, un);
        read_rows(c, rd, s2, un);
        un += s2 != shape;
    }
    bool set(std::size_t i, int v, rng& r) override {
        if constexpr (std::is_same_v<T, E>) {
            const auto p = this->locate(i);
            const unsigned k = static_cast<unsigned>(p.second);
            switch (r.below(5)) {
                case 0: vp::set(d[p.first][k], v); break;
                case 1: vp::set(d.at(p.first).at(k), v); break;
                case 2: vp::set((*(d.begin() + static_cast<long>(p.first)))[k], v); break;
                case 3: vp::set((d.rbegin() + static_cast<long>(d.size() - 1 - p.first))->at(k), v); break;
                default: vp::set(p.first == 0 ? d.front()[k] : p.first + 1 == d.size() ? d.back()[k] : d[p.first][k], v);
            }
            return true;
        }
        return false;
    }
    bool bind(thing<T>& o, rng&) override {
        auto* p = dynamic_cast<jdevice_h*>(&o);
        if (p == nullptr) {
            return false;
        }
        d = p->d;
        return true;
    }
};

struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};
template <typename T>
struct world : any_world {
    using vec_h = vector_h<T, vecmem::vector<T>>;
    using std_h = vector_h<T, std::vector<T>>;
    using arr_h = vector_h<T, vecmem::array<T>>;
    using jag_h = rows_h<T, vecmem::jagged_vector<T>>;
    using vov_h = rows_h<T, std::vector<std::vector<T>>>;
    cells_world w;
    explicit world(std::uint64_t seed) { w.begin(seed); }
    ~world() override { w.drop(); }
    thing<T>* at(std::size_t i) { return static_cast<thing<T>*>(w.get(i)); }
    void put_sh(std::vector<int> sh) { next_sh = std::move(sh); }
    std::vector<int> next_sh;

    void own(char k, const std::vector<std::size_t>& ns) {
        std::vector<int> sh;
        std::size_t n = 0;
        const bool jag = k == 'j' || k == 'J' || k == 'g';
        for (std::size_t m : ns) {
            sh.push_back(static_cast<int>(m));
            n += m;
        }
        // A resizable buffer without room may have no size variable.
        if (!jag && (ns.size() != 1 || (k == 'B' && n == 0))) {
            return;
        }
        std::vector<int> x;
        for (std::size_t i = 0; i < n; ++i) {
            x.push_back(static_cast<int>(w.r.below(120)));
        }
        std::unique_ptr<thing<T>> h;
        const auto fill = [&](auto& c) {
            for (std::size_t i = 0; i < n; ++i) {
                set(c[i], x[i]);
            }
        };
        switch (k) {
            case 'm': {
                auto p = std::make_unique<vec_h>(n, make<T>(0), &mr());
                fill(p->c);
                h = std::move(p);
                break;
            }
            case 'n': {
                auto p = std::make_unique<std_h>(n, make<T>(0));
                fill(p->c);
                h = std::move(p);
                break;
            }
            case 'f': {
                auto p = std::make_unique<arr_h>(mr(), n);
                fill(p->c);
                h = std::move(p);
                break;
            }
            case 'b':
            case 'B':
                if constexpr (std::is_trivially_destructible_v<T>) {
                    h = std::make_unique<buffer_h<T>>(x, k == 'B', false);
                    break;
                }
                return;
            case 'z': h = std::make_unique<memory_h<T>>(x); break;
            case 'j': h = std::make_unique<jag_h>(x, sh, &mr()); break;
            case 'J': h = std::make_unique<vov_h>(x, sh); break;
            case 'g':
                if constexpr (std::is_trivially_destructible_v<T>) {
                    h = std::make_unique<rows_buffer_h<T>>(x, sh);
                    break;
                }
                return;
            default: return;
        }
        const bool rs = k == 'B' || k == 'z';
        if (jag) {
            h->sh = sh;
        }
        w.own(std::move(h), k, x, jag ? sh : rs ? std::vector<int>{static_cast<int>(n)} : std::vector<int>{}, rs);
    }
    // A view of all of o, made in one of the ways there are.
    template <typename C>
    std::unique_ptr<thing<T>> over(C& c, char k) {
        const C& cc = c;
        if (k == 'v') {
            return std::make_unique<view_h<T, T>>(vecmem::get_data(c));
        }
        if (w.r.below(2)) {
            return std::make_unique<view_h<T, const T>>(vecmem::get_data(cc));
        }
        return std::make_unique<view_h<T, const T>>(vecmem::get_data(c));
    }
    template <typename C>
    std::unique_ptr<thing<T>> rows_over(C& c, char k, bool may_default) {
        const C& cc = c;
        ups().clear();
        const bool given = !may_default || w.r.below(2);
        std::unique_ptr<thing<T>> h;
        const auto ok = [&] {
            for (const std::string& s : ups()) {
                if (s.find(given ? "\"n\":1," : "\"n\":0,") == std::string::npos) {
                    return false;
                }
            }
            return true;
        };
        const auto wrap = [&](auto&& d, auto tag) {
            using E = decltype(tag);
            const bool good = ok();
            h = std::make_unique<data_h<T, std::remove_pointer_t<E>>>(std::move(d), !good);
        };
        if constexpr (std::is_same_v<C, vecmem::jagged_vector<T>>) {
            if (!given) {
                if (k == 'D') {
                    wrap(vecmem::get_data(c), static_cast<T*>(nullptr));
                } else {
                    wrap(vecmem::get_data(cc), static_cast<const T*>(nullptr));
                }
                return h;
            }
        }
        if (k == 'D') {
            wrap(vecmem::get_data(c, &mr(1)), static_cast<T*>(nullptr));
        } else {
            wrap(vecmem::get_data(cc, &mr(1)), static_cast<const T*>(nullptr));
        }
        return h;
    }
    void sub(char k, std::size_t o) {
        thing<T>* p = at(o);
        std::unique_ptr<thing<T>> h;
        bool keep = true;
        const bool way = w.r.below(2) != 0;
        if (k == 'v' || k == 'c') {
            if (auto* m = dynamic_cast<vec_h*>(p)) {
                h = over(m->c, k);
                keep = false;
            } else if (auto* s = dynamic_cast<std_h*>(p)) {
                h = over(s->c, k);
                keep = false;
            } else if (auto* a = dynamic_cast<arr_h*>(p)) {
                h = over(a->c, k);
                keep = false;
            } else if (p->v1() != nullptr) {
                if (k == 'v') {
                    h = std::make_unique<view_h<T, T>>(way ? *p->v1() : vecmem::data::vector_view<T>(p->v1()->capacity(), p->v1()->size_ptr(), p->v1()->ptr()));
                } else {
                    h = std::make_unique<view_h<T, const T>>(view<const T>(*p->v1()));
                }
            } else if (p->c1() != nullptr && k == 'c') {
                h = std::make_unique<view_h<T, const T>>(*p->c1());
            }
        } else if (k == 'd') {
            if (auto* d = dynamic_cast<device_h<T, T>*>(p)) {
                h = std::make_unique<device_h<T, T>>(vecmem::device_vector<T>(d->d));
            } else if (p->v1() != nullptr) {
                h = std::make_unique<device_h<T, T>>(vecmem::device_vector<T>(*p->v1()));
            }
        } else if (k == 'e') {
            if (auto* d = dynamic_cast<device_h<T, const T>*>(p)) {
                h = std::make_unique<device_h<T, const T>>(vecmem::device_vector<const T>(d->d));
            } else if (p->c1() != nullptr) {
                h = std::make_unique<device_h<T, const T>>(vecmem::device_vector<const T>(*p->c1()));
            } else if (p->v1() != nullptr) {
                h = std::make_unique<device_h<T, const T>>(vecmem::device_vector<const T>(*p->v1()));
            }
        } else if (k == 'D' || k == 'E') {
            keep = false;
            if (auto* j = dynamic_cast<jag_h*>(p)) {
                h = rows_over(j->c, k, true);
            } else if (auto* s = dynamic_cast<vov_h*>(p)) {
                h = rows_over(s->c, k, false);
            }
        } else if (k == 'V' && p->vj() != nullptr) {
            h = std::make_unique<jview_h<T, T>>(way ? *p->vj() : jview<T>(p->vj()->size(), p->vj()->ptr()));
        } else if (k == 'W') {
            if (p->cj() != nullptr) {
                h = std::make_unique<jview_h<T, const T>>(*p->cj());
            } else if (p->vj() != nullptr) {
                h = std::make_unique<jview_h<T, const T>>(jview<const T>(*p->vj()));
            }
        } else if (k == 'X') {
            if (auto* d = dynamic_cast<jdevice_h<T, T>*>(p)) {
                h = std::make_unique<jdevice_h<T, T>>(vecmem::jagged_device_vector<T>(d->d));
            } else if (p->vj() != nullptr) {
                h = std::make_unique<jdevice_h<T, T>>(vecmem::jagged_device_vector<T>(*p->vj()));
            }
        } else if (k == 'Y') {
            if (auto* d = dynamic_cast<jdevice_h<T, const T>*>(p)) {
                h = std::make_unique<jdevice_h<T, const T>>(vecmem::jagged_device_vector<const T>(d->d));
            } else if (p->cj() != nullptr) {
                h = std::make_unique<jdevice_h<T, const T>>(vecmem::jagged_device_vector<const T>(*p->cj()));
            } else if (p->vj() != nullptr) {
                h = std::make_unique<jdevice_h<T, const T>>(vecmem::jagged_device_vector<const T>(*p->vj()));
            }
        }
        if (h) {
            h->sh = p->sh;
            const std::vector<int> sh = p->sh;
            w.sub(std::move(h), k, o, 0, p->n, keep, sh, true);
        }
    }
    // Where the elements of p are.
    void start(thing<T>* p, T*& b, const T*& c) {
        if (auto* m = dynamic_cast<vec_h*>(p)) {
            b = m->c.data();
        } else if (auto* s = dynamic_cast<std_h*>(p)) {
            b = s->c.data();
        } else if (auto* f = dynamic_cast<arr_h*>(p)) {
            b = f->c.data();
        } else if (p->v1() != nullptr) {
            b = p->v1()->ptr();
        } else if (p->c1() != nullptr) {
            c = p->c1()->ptr();
        } else if (auto* d = dynamic_cast<device_h<T, T>*>(p)) {
            b = d->d.data();
        } else if (auto* e = dynamic_cast<device_h<T, const T>*>(p)) {
            c = e->d.data();
        }
    }
    template <typename E>
    std::unique_ptr<thing<T>> sized(E* p, std::size_t n, unsigned* other) {
        std::unique_ptr<guarded> sz;
        if (other == nullptr) {
            sz = std::make_unique<guarded>(sizeof(unsigned), alignof(unsigned));
            other = reinterpret_cast<unsigned*>(sz->p);
            *other = static_cast<unsigned>(n);
        }
        auto h = std::make_unique<view_h<T, E>>(view<E>(static_cast<unsigned>(n), other, p));
        h->sz = std::move(sz);
        return h;
    }
    void zed(char k, std::size_t o, std::size_t a, std::size_t n, std::size_t zh) {
        thing<T>* p = at(o);
        if (p->jagged() || a + n > p->n || (k != 'v' && k != 'c')) {
            return;
        }
        unsigned* other = nullptr;
        if (zh != 0) {
            thing<T>* z = at(zh);
            if (z == nullptr || z->v1() == nullptr || !z->resizable || z->n != n) {
                return;
            }
            other = z->v1()->size_ptr();
        }
        T* b = nullptr;
        const T* c = nullptr;
        start(p, b, c);
        std::unique_ptr<thing<T>> h;
        if (k == 'v' && c == nullptr) {
            h = sized<T>(b + a, n, other);
        } else if (k == 'c') {
            h = sized<const T>((b != nullptr ? b : c) + a, n, other);
        }
        if (h) {
            w.subz(std::move(h), k, o, a, n, zh);
        }
    }
    void cut(char k, std::size_t o, std::size_t a, std::size_t n) {
        thing<T>* p = at(o);
        if (p->jagged() || a + n > p->n || (k != 'v' && k != 'c')) {
            return;
        }
        T* b = nullptr;
        const T* c = nullptr;
        start(p, b, c);
        std::unique_ptr<thing<T>> h;
        if (k == 'v' && c == nullptr) {
            h = std::make_unique<view_h<T, T>>(view<T>(static_cast<unsigned>(n), b + a));
        } else if (k == 'c') {
            h = std::make_unique<view_h<T, const T>>(view<const T>(static_cast<unsigned>(n), (b != nullptr ? b : c) + a));
        }
        if (h) {
            w.sub(std::move(h), k, o, a, n, false, {}, false);
        }
    }
    void row(char k, std::size_t o, std::size_t i) {
        thing<T>* p = at(o);
        if (!p->jagged() || i >= p->sh.size()) {
            return;
        }
        std::unique_ptr<thing<T>> h;
        const bool way = w.r.below(2) != 0;
        if (k == 'v' || k == 'c') {
            if (auto* j = dynamic_cast<jag_h*>(p)) {
                h = over(j->c[i], k);
            } else if (auto* s = dynamic_cast<vov_h*>(p)) {
                h = over(s->c[i], k);
            } else if (p->vj() != nullptr) {
                const view<T>& x = way ? p->vj()->ptr()[i] : p->vj()->host_ptr()[i];
                if (k == 'v') {
                    h = std::make_unique<view_h<T, T>>(x);
                } else {
                    h = std::make_unique<view_h<T, const T>>(view<const T>(x));
                }
            } else if (p->cj() != nullptr && k == 'c') {
                h = std::make_unique<view_h<T, const T>>(way ? p->cj()->ptr()[i] : p->cj()->host_ptr()[i]);
            }
        } else if (k == 'd' || k == 'e') {
            const long q = static_cast<long>(i);
            if (auto* x = dynamic_cast<jdevice_h<T, T>*>(p)) {
                if (k == 'd') {
                    h = std::make_unique<device_h<T, T>>(way ? x->d[i] : *(x->d.begin() + q));
                } else {
                    const auto& c = x->d;
                    h = std::make_unique<device_h<T, const T>>(way ? c[i] : c.begin()[q]);
                }
            } else if (auto* y = dynamic_cast<jdevice_h<T, const T>*>(p)) {
                if (k == 'e') {
                    h = std::make_unique<device_h<T, const T>>(way ? y->d.at(i) : *(y->d.begin() + q));
                }
            }
        }
        if (h) {
            w.sub(std::move(h), k, o, p->offset(i), static_cast<std::size_t>(p->sh[i]), false, {}, false);
        }
    }
    void rows(char k, std::size_t o, std::size_t a, std::size_t n) {
        thing<T>* p = at(o);
        if (!p->jagged() || a + n > p->sh.size() || (k != 'V' && k != 'W')) {
            return;
        }
        const std::vector<int> sh(p->sh.begin() + static_cast<long>(a), p->sh.begin() + static_cast<long>(a + n));
        const std::size_t off = p->offset(a), m = p->offset(a + n) - off;
        std::unique_ptr<thing<T>> h;
        if (p->vj() != nullptr) {
            jview<T> x(n, p->vj()->ptr() + a);
            if (k == 'V') {
                h = std::make_unique<jview_h<T, T>>(x);
            } else {
                h = std::make_unique<jview_h<T, const T>>(jview<const T>(x));
            }
        } else if (p->cj() != nullptr && k == 'W') {
            h = std::make_unique<jview_h<T, const T>>(jview<const T>(n, p->cj()->ptr() + a, p->cj()->host_ptr() + a));
        }
        if (h) {
            h->sh = sh;
            w.sub(std::move(h), k, o, off, m, true, sh, false, a);
        }
    }
    template <typename A, typename B>
    static void compare(const A& a, const B& b, int& x, int& q) {
        x = a == b;
        q = a != b;
    }
    void operate(const std::string& op, std::istringstream& is) override {
        const bool making = op == "own" || op == "sub" || op == "cut" || op == "zed" || op == "row" || op == "rows";
        if (making && w.hs.size() > 12) {
            return;
        }
        if (w.common(op, is)) {
            return;
        }
        if (op == "own") {
            char k;
            std::size_t n;
            std::vector<std::size_t> ns;
            is >> k;
            while (is >> n) {
                ns.push_back(n);
            }
            own(k, ns);
            return;
        }
        if (making) {
            char k;
            std::size_t o, a = 0, n = 0;
            if (!(is >> k >> o) || at(o) == nullptr) {
                return;
            }
            if (op == "sub") {
                sub(k, o);
            } else if (op == "cut" && is >> a >> n) {
                cut(k, o, a, n);
            } else if (std::size_t z = 0; op == "zed" && is >> a >> n >> z) {
                zed(k, o, a, n, z);
            } else if (op == "row" && is >> a) {
                row(k, o, a);
            } else if (op == "rows" && is >> a >> n) {
                rows(k, o, a, n);
            }
            return;
        }
        std::size_t hi, oi = 0;
        if (!(is >> hi) || at(hi) == nullptr) {
            return;
        }
        thing<T>* h = at(hi);
        if (op == "size") {
            std::size_t n;
            if (is >> n && n <= h->n && h->resizable && h->resize(n)) {
                w.event("\"op\":\"resize\",\"h\":" + num(static_cast<long long>(hi)) + ",\"x\":[" + num(static_cast<long long>(n)) + "]");
            }
            return;
        }
        if (op == "mv") {           // moved elsewhere, it is still the same thing
            bool done = false;
            if (auto* d = dynamic_cast<data_h<T, T>*>(h)) {
                vecmem::data::jagged_vector_data<T> e(std::move(d->d));
                vecmem::data::jagged_vector_data<T> f;
                f = std::move(e);
                d->d = std::move(f);
                done = true;
            }
            if constexpr (std::is_trivially_destructible_v<T>) {
                if (auto* b = dynamic_cast<buffer_h<T>*>(h)) {
                    vecmem::data::vector_buffer<T> e(std::move(b->b));
                    b->b = std::move(e);
                    done = true;
                } else if (auto* g = dynamic_cast<rows_buffer_h<T>*>(h)) {
                    vecmem::data::jagged_vector_buffer<T> e(std::move(g->b));
                    g->b = std::move(e);
                    done = true;
                }
            }
            if (done) {
                w.two("bind", hi, hi);
            }
            return;
        }
        if (!(is >> oi) || at(oi) == nullptr) {
            return;
        }
        thing<T>* o = at(oi);
        if (op == "bind") {
            if (h->jagged() == o->jagged() && h->bind(*o, w.r)) {
                h->n = o->n;
                h->sh = o->sh;
                h->resizable = o->resizable;
                w.two("bind", hi, oi);
            }
        } else if (op == "eqm") {
            int x = -1, q = -1;
            if (h->v1() != nullptr && o->v1() != nullptr) {
                compare(*h->v1(), *o->v1(), x, q);
            } else if (h->v1() != nullptr && o->c1() != nullptr) {
                compare(*h->v1(), *o->c1(), x, q);
            } else if (h->c1() != nullptr && o->v1() != nullptr) {
                compare(*h->c1(), *o->v1(), x, q);
            } else if (h->c1() != nullptr && o->c1() != nullptr) {
                compare(*h->c1(), *o->c1(), x, q);
            } else if (h->vj() != nullptr && o->vj() != nullptr) {
                compare(*h->vj(), *o->vj(), x, q);
            } else if (h->vj() != nullptr && o->cj() != nullptr) {
                compare(*h->vj(), *o->cj(), x, q);
            } else if (h->cj() != nullptr && o->vj() != nullptr) {
                compare(*h->cj(), *o->vj(), x, q);
            } else if (h->cj() != nullptr && o->cj() != nullptr) {
                compare(*h->cj(), *o->cj(), x, q);
            }
            if (x >= 0) {
                w.two("eqm", hi, oi, ",\"r\":" + num(x) + ",\"q\":" + num(q) + ",\"jag\":" + num(h->jagged()));
            }
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
    }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string type;
            std::uint64_t seed = 1;
            is >> type >> seed;
            w.reset();
            switch (type[0]) {
                case 'i': w = std::make_unique<world<int>>(seed); break;
                case 'y': w = std::make_unique<world<signed char>>(seed); break;
                case 'C': w = std::make_unique<world<counted<24, 8>>>(seed); break;
                case 'p': w = std::make_unique<world<plain<12, 4>>>(seed); break;
                default: w = std::make_unique<world<counted<4, 4>>>(seed);
            }
            continue;
        }
        if (!op.empty() && w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
