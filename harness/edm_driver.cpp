// Conformance driver for structured containers (C28 to C32, spec/Edm.tla).
// Lines (objects are numbered from 1 in the order in which they are made; the
// variables of the schema from 0):
//   R schema seed mode      schema: a letter, see main
//   h                       host container
//   hc o                    copy of a host container
//   hr o n, hv o n          resize, reserve
//   hx o var n              resize one variable only
//   hrow o i var n          resize an inner vector, through an element
//   sz o                    size
//   set o i var j v         write through an element (j: position in an inner vector)
//   get o i                 read an element
//   di o                    sizes and capacities on the device
//   dpb o k                 k times push_back_default
//   b rz dev n              buffer
//   b rz dev n1 n2 ..       buffer with jagged vectors
//   setup o, ms o byte, copy o p hint, tv o p hint, gs o, free o, mv o, ma o p,
//   rz o var row n, wait
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "mock_copy.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/data.hpp"
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/host.hpp"
#include "vecmem/edm/view.hpp"
using namespace vp;

#if PART == 0
void* operator new(std::size_t n) { return heap_new(n); }
void* operator new[](std::size_t n) { return heap_new(n); }
void operator delete(void* p) noexcept { heap_delete(p); }
void operator delete[](void* p) noexcept { heap_delete(p); }
void operator delete(void* p, std::size_t) noexcept { heap_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { heap_delete(p); }
#endif

namespace vp {
struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};
// Compiled in parts: 1 to 3 have the schemas.
std::unique_ptr<any_world> worlds1(char, std::uint64_t, int);
std::unique_ptr<any_world> worlds2(char, std::uint64_t, int);
std::unique_ptr<any_world> worlds3(char, std::uint64_t, int);
}  // namespace vp

#if PART > 0
namespace {
using type = vecmem::copy::type;
namespace edm = vecmem::edm;
namespace vt = vecmem::edm::type;
template <typename BASE>
struct iface : BASE {
    using BASE::BASE;
};
long long ll(std::size_t x) { return static_cast<long long>(x); }

template <typename... V>
struct world : any_world {
    static constexpr std::size_t N = sizeof...(V);
    template <std::size_t I>
    using var = std::tuple_element_t<I, std::tuple<V...>>;
    template <std::size_t I>
    using elem = typename var<I>::type;
    template <std::size_t I>
    static constexpr bool is_s = vt::details::is_scalar_v<var<I>>;
    template <std::size_t I>
    static constexpr bool is_j = vt::details::is_jagged_vector_v<var<I>>;
    template <std::size_t I>
    static constexpr bool is_v = !is_s<I> && !is_j<I>;
    static constexpr bool has_j = (vt::details::is_jagged_vector_v<V> || ...);
    using con = edm::container<iface, V...>;
    using host = typename con::host;
    using data = typename con::data;
    using cdata = typename con::const_data;
    using buffer = typename con::buffer;
    using view = typename con::view;
    using cview = typename con::const_view;
    using device = typename con::device;
    using cdevice = typename con::const_device;
    template <typename F, std::size_t... I>
    static void each_impl(F&& f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>{}), ...);
    }
    template <typename F>
    static void each(F&& f) {
        each_impl(f, std::make_index_sequence<N>{});
    }
    struct object {
        bool live = true, rz = false, busy = false, ready = true, dd = false;
        char kind = 'h';
        int dev = 0;
        std::string last;
        std::unique_ptr<host> h;
        std::unique_ptr<buffer> b;
        std::unique_ptr<data> d;
        std::unique_ptr<cdata> cd;
    };
    std::vector<std::unique_ptr<object>> os;
    struct outstanding {
        vecmem::copy::event_type e;
        std::vector<std::size_t> who;
    };
    std::vector<outstanding> events;
    mock_copy cp;
    rng r{1};
    int mode;

    world(std::uint64_t seed, int m) : r(seed), mode(m) {
        host_mem().restart(seed);
        dev_mem().restart(seed + 1);
        ups().clear();
        auto& s = mock_copy::st();
        s = mock_copy::state();
        s.mode = m;
        s.r = rng(seed + 5);
        std::string k, es;
        each([&](auto I) {
            k += std::string(k.empty() ? "" : ",") + (is_s<I> ? "\"s\"" : is_j<I> ? "\"j\"" : "\"v\"");
            es += std::string(es.empty() ? "" : ",") + num(ll(sizeof(elem<I>)));
        });
        emit("{\"e\":\"R\",\"sch\":[" + k + "],\"es\":[" + es + "]}");
    }
    ~world() override {
        wait_all();
        os.clear();
        ups().clear();
        emit("{\"e\":\"drop\",\"out\":" + num(ll(host_mem().live.size() + dev_mem().live.size())) + ",\"bad\":" + num(host_mem().bad + dev_mem().bad) + "}");
    }
    object* get(std::size_t i) { return i >= 1 && i <= os.size() && os[i - 1]->live ? os[i - 1].get() : nullptr; }
    vecmem::memory_resource& mem(int dev) { return dev ? static_cast<vecmem::memory_resource&>(dev_mem()) : host_mem(); }

    // -------------------------------------------------------- observation ---
    struct text {
        std::string c, s, v;
        void row(std::size_t cap_, long long size, const void* p, std::size_t es) {
            const std::string comma = c.empty() ? "" : ",";
            c += comma + num(cap(cap_));
            s += comma + num(size);
            std::vector<int> x;
            for (std::size_t i = 0; i < cap_ && i < 1000; ++i) {
                x.push_back(raw_get(static_cast<const char*>(p) + i * es, es));
            }
            v += comma + list(x);
        }
        template <typename T>
        void row(vecmem::data::vector_view<T> w) {
            row(w.capacity(), w.size_ptr() ? cap(*w.size_ptr()) : ll(w.capacity()), w.ptr(), sizeof(T));
        }
        void var(const text& t) {
            const std::string comma = c.empty() ? "" : ",";
            c += comma + "[" + t.c + "]";
            s += comma + "[" + t.s + "]";
            v += comma + "[" + t.v + "]";
        }
    };
    std::string look(object& o) {
        untracked u;
        arena::opened op(dev_mem());
        text all;
        int dd = 1;
        each([&](auto I) {
            constexpr std::size_t es = sizeof(elem<I>);
            text t;
            if (o.h) {
                auto& x = o.h->template get<I>();
                if constexpr (is_s<I>) {
                    t.row(1, 1, &x, es);
                } else if constexpr (is_v<I>) {
                    t.row(x.size(), ll(x.size()), x.data(), es);
                } else {
                    for (auto& y : x) {
                        t.row(y.size(), ll(y.size()), y.data(), es);
                    }
                }
            } else {
                auto& x = o.b->template get<I>();
                if constexpr (is_s<I>) {
                    t.row(1, 1, x, es);
                } else if constexpr (is_v<I>) {
                    t.row(x);
                } else {
                    for (std::size_t i = 0; i < x.size(); ++i) {
                        t.row(x.host_ptr()[i]);
                        dd = dd && (!o.dd || x.ptr()[i] == x.host_ptr()[i]);
                    }
                }
            }
            all.var(t);
        });
        return "{\"n\":0,\"c\":[" + all.c + "],\"s\":[" + all.s + "],\"v\":[" + all.v + "],\"dd\":" + num(dd) + "}";
    }
    std::string observations() {
        std::string s = ",\"obs\":[";
        for (std::size_t i = 0; i < os.size(); ++i) {
            object& o = *os[i];
            s += i ? "," : "";
            if (!o.live) {
                s += "{\"n\":2}";
            } else if (o.busy) {
                s += "{\"n\":1}";
                o.last.clear();
            } else {
                const std::string x = look(o);
                s += x == o.last ? "{\"n\":3}" : x;      // 3: as seen last time
                o.last = x;
            }
        }
        untracked u;
        arena::opened op(dev_mem());
        const bool ok = host_mem().intact() && dev_mem().intact();
        auto& st = mock_copy::st();
        s += "],\"g\":" + num(ok) + ",\"oob\":" + num(st.oob) + ",\"dead\":" + num(st.dead) + ",\"tr\":[";
        for (std::size_t i = 0; i < st.log.size(); ++i) {
            s += (i ? "," : "") + st.log[i];
        }
        st.log.clear();
        return s + "],\"ups\":" + take_ups();
    }
    void event(const std::string& fields) { emit("{\"e\":\"op\"," + fields + observations() + "}"); }
    // Where everything lies: [arena position, length, wrongly aligned].
    std::string layout(object& o) {
        std::string s = ",\"lay\":[";
        bool first = true;
        std::vector<const void*> seen;
        const auto add = [&](const void* p, std::size_t n, std::size_t al) {
            if (n == 0 || std::find(seen.begin(), seen.end(), p) != seen.end()) {
                return;
            }
            seen.push_back(p);
            arena* a = host_mem().has(p) ? &host_mem() : dev_mem().has(p) ? &dev_mem() : nullptr;
            s += (first ? "" : ",") + std::string("[") + (a ? num(a->pos(p)) : "-2") + "," + num(ll(n)) + "," + num(reinterpret_cast<std::uintptr_t>(p) % al != 0) + "]";
            first = false;
        };
        std::vector<const void*> sizes;                  // one for all of the vectors
        const auto row = [&](auto v, bool own) {
            using T = std::remove_pointer_t<decltype(v.ptr())>;
            if (v.size_ptr() != nullptr && (own || std::find(sizes.begin(), sizes.end(), v.size_ptr()) == sizes.end())) {
                sizes.push_back(v.size_ptr());
                if (own && std::find(seen.begin(), seen.end(), v.size_ptr()) != seen.end()) {
                    s += (first ? "" : ",") + std::string("[-3,1,1]");      // shared, but should not be
                    first = false;
                }
                add(v.size_ptr(), sizeof(unsigned), alignof(unsigned));
            }
            const std::size_t n = v.capacity() * sizeof(T);
            if (n > 0 && std::find(seen.begin(), seen.end(), static_cast<const void*>(v.ptr())) != seen.end()) {
                s += (first ? "" : ",") + std::string("[-3,1,1]");
                first = false;
            }
            add(v.ptr(), n, alignof(T));
        };
        if (o.b) {
            each([&](auto I) {
                auto& x = o.b->template get<I>();
                if constexpr (is_s<I>) {
                    add(x, sizeof(elem<I>), alignof(elem<I>));
                } else if constexpr (is_v<I>) {
                    row(x, false);
                } else {
                    using D = vecmem::data::vector_view<elem<I>>;
                    add(x.host_ptr(), x.size() * sizeof(D), alignof(D));
                    if (x.ptr() != x.host_ptr()) {
                        add(x.ptr(), x.size() * sizeof(D), alignof(D));
                    }
                    for (std::size_t i = 0; i < x.size(); ++i) {
                        row(x.host_ptr()[i], true);
                    }
                }
            });
        }
        return s + "]";
    }
    void made(std::unique_ptr<object> o, const std::string& fields) {
        os.push_back(std::move(o));
        object& p = *os.back();
        event(fields + ",\"k\":\"" + p.kind + "\",\"dev\":" + num(p.dev) + layout(p));
    }

    // ----------------------------------------------------------- operands ---
    // Views of an object; may throw, if it is a host container.
    view whole(object& o) {
        if (o.h) {
            o.d = std::make_unique<data>(r.below(2) ? vecmem::get_data(*o.h, &host_mem()) : vecmem::get_data(*o.h));
            return vecmem::get_data(*o.d);
        }
        return vecmem::get_data(*o.b);
    }
    // A constant view, made from another one.
    cview constant(const view& v) {
        if (r.below(2)) {
            return cview(v);
        }
        cview w(r.below(2) ? 7u : 0u);
        w = v;
        return w;
    }
    cview cwhole(object& o) {
        if (o.h) {
            const host& h = *o.h;
            switch (r.below(3)) {
                case 0: return constant(whole(o));
                case 1: {
                    o.cd = std::make_unique<cdata>(vecmem::get_data(h));
                    return vecmem::get_data(*o.cd);
                }
                default: {
                    o.d = std::make_unique<data>(vecmem::get_data(*o.h));
                    const data& d = *o.d;
                    return vecmem::get_data(d);
                }
            }
        }
        const buffer& b = *o.b;
        return r.below(2) ? cview(vecmem::get_data(b)) : constant(vecmem::get_data(*o.b));
    }
    // Do all of the views of an object tell the same about it?
    bool consistent(object& o) {
        const auto same = [](const auto& a, const auto& b) { return a.ptr() == b.ptr() && a.size() == b.size() && a.capacity() == b.capacity(); };
        const view v = whole(o);
        const cview a(v);
        cview b;
        b = v;
        bool ok = true;
        for (const cview* c : {&a, static_cast<const cview*>(&b)}) {
            ok = ok && c->capacity() == v.capacity() && same(c->size(), v.size()) && same(c->payload(), v.payload()) && same(c->layout(), v.layout()) && same(c->host_layout(), v.host_layout());
        }
        const auto within = [](const auto& w, const void* p, std::size_t n) {
            const char* q = static_cast<const char*>(p);
            const char* f = reinterpret_cast<const char*>(w.ptr());
            return n == 0 || f == nullptr || (f <= q && q + n <= f + w.size());
        };
        each([&](auto I) {
            if (!o.b) {
                return;
            }
            const auto& x = v.template get<I>();
            constexpr std::size_t es = sizeof(elem<I>);
            if constexpr (is_s<I>) {
                ok = ok && within(v.payload(), x, es);
            } else if constexpr (is_v<I>) {
                ok = ok && within(v.payload(), x.ptr(), x.capacity() * es);
                ok = ok && (x.size_ptr() == nullptr || within(v.size(), x.size_ptr(), sizeof(unsigned)));
            } else {
                using D = vecmem::data::vector_view<elem<I>>;
                ok = ok && (x.size() == 0 || (v.layout().ptr() != nullptr && v.host_layout().ptr() != nullptr));
                ok = ok && within(v.layout(), x.ptr(), x.size() * sizeof(D)) && within(v.host_layout(), x.host_ptr(), x.size() * sizeof(D));
                for (std::size_t i = 0; i < x.size(); ++i) {
                    const auto& y = x.host_ptr()[i];
                    ok = ok && within(v.payload(), y.ptr(), y.capacity() * es);
                    ok = ok && (y.size_ptr() == nullptr || within(v.size(), y.size_ptr(), sizeof(unsigned)));
                }
            }
        });
        return ok;
    }
    void wait_all() {
        if (events.empty()) {
            return;
        }
        {
            library l;
            if (r.below(2)) {
                for (auto& e : events) {
                    e.e->wait();
                }
            } else {
                events.back().e->wait();
                for (auto& e : events) {
                    e.e->wait();
                }
            }
        }
        events.clear();
        for (auto& o : os) {
            o->busy = false;
        }
    }
    void wait_and_tell() {
        if (!events.empty()) {
            wait_all();
            event("\"op\":\"wait\"");
        }
    }
    void keep(vecmem::copy::event_type e, std::vector<std::size_t> who) {
        outstanding x;
        x.e = std::move(e);
        x.who = who;
        events.push_back(std::move(x));
        for (std::size_t w : who) {
            os[w - 1]->busy = true;
        }
        if (mode == 0) {
            wait_all();
        }
    }
    // 0: done, 1: length_error, 2: something else, 3: out_of_range
    template <typename F>
    static int attempt(F f) {
        library l;
        try {
            f();
            return 0;
        } catch (const std::length_error&) {
            return 1;
        } catch (const std::out_of_range&) {
            return 3;
        } catch (const std::exception&) {
            return 2;
        }
    }
    void finish(vecmem::copy::event_type e, std::vector<std::size_t> who, const std::string& fields) {
        if (e) {
            keep(std::move(e), std::move(who));
            event(fields);
        } else {
            // Refused half way through: there is nothing to wait on.
            mock_copy::run_until(mock_copy::st().issued);
            event(fields);
            wait_and_tell();
        }
    }
    template <typename P>
    static std::string read(P&& p) {
        std::string s = "[";
        each([&](auto I) {
            s += s.size() > 1 ? "," : "";
            std::vector<int> x;
            auto&& e = p.template get<I>();
            if constexpr (is_j<I>) {
                for (std::size_t j = 0; j < e.size(); ++j) {
                    x.push_back(raw_get(&e[static_cast<unsigned>(j)], sizeof(elem<I>)));
                }
            } else {
                x.push_back(raw_get(&e, sizeof(elem<I>)));
            }
            s += list(x);
        });
        return s + "]";
    }
    // The variable w of an element; a: position in an inner vector.
    template <typename P>
    static bool write(P&& p, std::size_t w, std::size_t a, int v) {
        bool ok = false;
        each([&](auto I) {
            if (I == w) {
                auto&& e = p.template get<I>();
                if constexpr (is_j<I>) {
                    if (a < e.size()) {
                        e[static_cast<unsigned>(a)] = with_value<elem<I>>(v);
                        ok = true;
                    }
                } else {
                    e = with_value<elem<I>>(v);
                    ok = true;
                }
            }
        });
        return ok;
    }
    // Sizes of the variables of a host container.
    static bool host_sizes(host& h, std::size_t& n) {
        bool first = true, same = true;
        each([&](auto I) {
            if constexpr (!is_s<I>) {
                const std::size_t m = h.template get<I>().size();
                same = same && (first || m == n);
                n = first ? m : std::min(n, m);
                first = false;
            }
        });
        return same;
    }
    void operate(const std::string& op, std::istringstream& is) override {
        if (os.size() >= 10 && (op == "h" || op == "hc" || op == "b" || op == "mv")) {
            return;
        }
        std::size_t x = 0, y = 0;
        const auto who = [&] { return "\"t\":" + num(ll(x)); };
        if (op == "h") {
            auto o = std::make_unique<object>();
            o->h = std::make_unique<host>(host_mem());
            ups().clear();
            made(std::move(o), "\"op\":\"host\"");
        } else if (op == "hc") {
            if (!(is >> x) || get(x) == nullptr || get(x)->kind != 'h') {
                return;
            }
            wait_and_tell();
            auto o = std::make_unique<object>();
            const host& h = *get(x)->h;
            o->h = std::make_unique<host>(h);
            ups().clear();
            made(std::move(o), "\"op\":\"hc\",\"f\":" + num(ll(x)));
        } else if (op == "b") {
            auto o = std::make_unique<object>();
            int rz = 0, dev = 0;
            std::size_t n = 0;
            std::vector<std::size_t> c;
            is >> rz >> dev;
            while (is >> n) {
                c.push_back(n);
            }
            o->rz = rz;
            o->ready = !rz;
            o->kind = rz ? 'r' : 'f';
            o->dev = dev;
            const auto bt = rz ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size;
            ups().clear();
            const std::uint64_t k = r.below(4);
            const auto most = c.empty() ? 0 : *std::max_element(c.begin(), c.end());
            const int t = attempt([&] {
                if constexpr (has_j) {
                    if (k == 3 && most < 256) {
                        o->b = std::make_unique<buffer>(std::vector<unsigned char>(c.begin(), c.end()), mem(dev), dev ? &host_mem() : nullptr, bt);
                    } else if (k == 0) {
                        std::vector<unsigned> u(c.begin(), c.end());
                        o->b = std::make_unique<buffer>(u, mem(dev), dev ? &host_mem() : nullptr, bt);
                    } else {
                        o->b = std::make_unique<buffer>(c, mem(dev), dev || k == 1 ? &host_mem() : nullptr, bt);
                    }
                } else {
                    o->b = std::make_unique<buffer>(static_cast<unsigned>(c.empty() ? 0 : c[0]), mem(dev), bt);
                }
            });
            if (t == 0) {
                std::vector<int> u(c.begin(), c.end());
                made(std::move(o), "\"op\":\"buf\",\"x\":" + list(u));
            } else {
                event("\"op\":\"failed\"");
            }
        } else if (op == "hr" || op == "hv") {
            std::size_t n;
            if (!(is >> x >> n) || get(x) == nullptr || get(x)->kind != 'h') {
                return;
            }
            wait_and_tell();
            host& h = *get(x)->h;
            bool enough = true;
            const int t = attempt([&] {
                if (op == "hr") {
                    h.resize(n);
                } else {
                    h.reserve(n);
                }
            });
            if (op == "hv") {
                each([&](auto I) {
                    if constexpr (!is_s<I>) {
                        enough = enough && h.template get<I>().capacity() >= n;
                    }
                });
            }
            ups().clear();
            event("\"op\":\"" + op + "\"," + who() + ",\"thr\":" + num(t) + ",\"x\":[" + num(ll(n)) + "],\"r\":[" + num(enough) + "]");
        } else if (op == "hx") {
            std::size_t w, n;
            if (!(is >> x >> w >> n) || get(x) == nullptr || get(x)->kind != 'h') {
                return;
            }
            wait_and_tell();
            bool done = false;
            each([&](auto I) {
                if constexpr (!is_s<I>) {
                    if (I == w) {
                        get(x)->h->template get<I>().resize(n);
                        done = true;
                    }
                }
            });
            ups().clear();
            if (done) {
                event("\"op\":\"hx\"," + who() + ",\"x\":[" + num(ll(w)) + "," + num(ll(n)) + "]");
            }
        } else if (op == "hrow") {
            std::size_t i, w, n;
            if (!(is >> x >> i >> w >> n) || get(x) == nullptr || get(x)->kind != 'h') {
                return;
            }
            wait_and_tell();
            std::size_t m = 0;
            if (!host_sizes(*get(x)->h, m) || i >= m) {
                return;
            }
            bool done = false;
            each([&](auto I) {
                if constexpr (is_j<I>) {
                    if (I == w) {
                        auto p = (*get(x)->h)[i];
                        p.template get<I>().resize(n);
                        done = true;
                    }
                }
            });
            ups().clear();
            if (done) {
                event("\"op\":\"hrow\"," + who() + ",\"x\":[" + num(ll(i)) + "," + num(ll(w)) + "," + num(ll(n)) + "]");
            }
        } else if (op == "sz") {
            if (!(is >> x) || get(x) == nullptr || get(x)->kind != 'h') {
                return;
            }
            wait_and_tell();
            std::size_t n = 0;
            const int t = attempt([&] { n = get(x)->h->size(); });
            event("\"op\":\"sz\"," + who() + ",\"thr\":" + num(t) + ",\"r\":[" + num(cap(n)) + "]");
        } else if (op == "get") {
            std::size_t i;
            if (!(is >> x >> i) || get(x) == nullptr || !get(x)->ready) {
                return;
            }
            wait_and_tell();
            object& o = *get(x);
            std::string s = "[]";
            int t = 0;
            if (o.h && r.below(3)) {
                std::size_t m = 0;
                const bool plain_access = host_sizes(*o.h, m) && i < m && r.below(2);
                const bool c = r.below(2);
                const host& ch = *o.h;
                t = attempt([&] {
                    if (plain_access) {
                        s = c ? read(ch[i]) : read((*o.h)[i]);
                    } else {
                        s = c ? read(ch.at(i)) : read(o.h->at(i));
                    }
                });
                if (c && t == 0) {
                    const auto p = (*o.h)[i];
                    if (read(p) != s) {
                        s = "[[-1]]";
                    }
                }
            } else {
                std::size_t m = 0;
                if (o.h && (!host_sizes(*o.h, m) || i >= m)) {
                    return;
                }
                arena::opened op(dev_mem());
                const auto k = r.below(3);
                const unsigned j = static_cast<unsigned>(i);
                if (k == 0) {
                    cdevice d(cwhole(o));
                    const cdevice& e = d;
                    if (i >= d.size()) {
                        return;
                    }
                    s = r.below(2) ? read(e[j]) : read(d.at(j));
                } else {
                    device d(whole(o));
                    const device& e = d;
                    if (i >= d.size()) {
                        return;
                    }
                    if constexpr (has_j) {
                        (void)e;
                        s = k == 1 ? read(d[j]) : read(d.at(j));
                    } else {
                        s = k == 1 ? read(r.below(2) ? e[j] : e.at(j)) : read(d.at(j));
                    }
                }
            }
            ups().clear();
            event("\"op\":\"get\"," + who() + ",\"thr\":" + num(t) + ",\"x\":[" + num(ll(i)) + "],\"r\":" + s);
        } else if (op == "set") {
            std::size_t i, w, a;
            int v;
            if (!(is >> x >> i >> w >> a >> v) || get(x) == nullptr || !get(x)->ready || v < 0 || v > 255) {
                return;
            }
            wait_and_tell();
            object& o = *get(x);
            bool ok = false;
            std::size_t m = 0;
            if (o.h && (!host_sizes(*o.h, m) || i >= m)) {
                return;
            }
            if (o.h && r.below(3)) {
                ok = r.below(2) ? write((*o.h)[i], w, a, v) : write(o.h->at(i), w, a, v);
            } else {
                arena::opened op(dev_mem());
                device d(whole(o));
                if (i >= d.size()) {
                    return;
                }
                const unsigned j = static_cast<unsigned>(i);
                ok = r.below(2) ? write(d[j], w, a, v) : write(d.at(j), w, a, v);
            }
            ups().clear();
            if (ok) {
                event("\"op\":\"set\"," + who() + ",\"x\":[" + num(ll(i)) + "," + num(ll(w)) + "," + num(ll(a)) + "," + num(v) + "]");
            }
        } else if (op == "di") {
            if (!(is >> x) || get(x) == nullptr || !get(x)->ready) {
                return;
            }
            wait_and_tell();
            object& o = *get(x);
            std::size_t m = 0;
            if (o.h && !host_sizes(*o.h, m)) {
                return;
            }
            std::vector<int> s;
            const auto tell = [&](auto& d) {
                s.push_back(static_cast<int>(cap(d.size())));
                s.push_back(static_cast<int>(cap(d.capacity())));
                each([&](auto I) {
                    if constexpr (!is_s<I>) {
                        s.push_back(static_cast<int>(cap(d.template get<I>().size())));
                        s.push_back(static_cast<int>(cap(d.template get<I>().capacity())));
                    }
                });
            };
            {
                arena::opened op(dev_mem());
                if (r.below(2)) {
                    device d(whole(o));
                    tell(d);
                } else {
                    const cdevice d(cwhole(o));
                    tell(d);
                }
            }
            const bool views = consistent(o);
            ups().clear();
            event("\"op\":\"di\"," + who() + ",\"r\":" + list(s) + ",\"views\":" + num(views));
        } else if (op == "dpb") {
            int k;
            if (!(is >> x >> k) || get(x) == nullptr || !get(x)->ready || !get(x)->rz) {
                return;
            }
            if constexpr (!has_j) {
                wait_and_tell();
                object& o = *get(x);
                std::vector<int> s;
                {
                    arena::opened op(dev_mem());
                    device d(whole(o));
                    for (int i = 0; i < k && d.size() < d.capacity(); ++i) {
                        s.push_back(static_cast<int>(cap(d.push_back_default())));
                    }
                }
                event("\"op\":\"dpb\"," + who() + ",\"r\":" + list(s));
            }
        } else if (op == "rz") {
            std::size_t w, row;
            unsigned n;
            if (!(is >> x >> w >> row >> n) || get(x) == nullptr || !get(x)->ready || !get(x)->rz) {
                return;
            }
            wait_and_tell();
            bool done = false;
            {
                arena::opened op(dev_mem());
                each([&](auto I) {
                    if (I == w) {
                        auto& v = get(x)->b->template get<I>();
                        if constexpr (is_j<I>) {
                            if (row < v.size() && n <= v.host_ptr()[row].capacity()) {
                                *v.host_ptr()[row].size_ptr() = n;
                                done = true;
                            }
                        } else if constexpr (is_v<I>) {
                            if (v.size_ptr() != nullptr && n <= v.capacity()) {
                                *v.size_ptr() = n;
                                done = true;
                            }
                        }
                    }
                });
            }
            if (done) {
                event("\"op\":\"rz\"," + who() + ",\"x\":[" + num(ll(w)) + "," + num(ll(row)) + "," + num(n) + "]");
            }
        } else if (op == "setup") {
            if (!(is >> x) || get(x) == nullptr || get(x)->kind == 'h') {
                return;
            }
            object& o = *get(x);
            o.ready = true;
            view v = whole(o);
            vecmem::copy::event_type e;
            const int t = attempt([&] { e = cp.setup(v); });
            o.dd = true;
            finish(std::move(e), {x}, "\"op\":\"setup\"," + who() + ",\"thr\":" + num(t));
        } else if (op == "ms") {
            int b;
            std::size_t m = 0;
            if (!(is >> x >> b) || get(x) == nullptr || (get(x)->h && !host_sizes(*get(x)->h, m))) {
                return;
            }
            if (get(x)->h) {
                wait_and_tell();
            }
            view v = whole(*get(x));
            vecmem::copy::event_type e;
            const int t = attempt([&] { e = cp.memset(v, b); });
            finish(std::move(e), {x}, "\"op\":\"ms\"," + who() + ",\"thr\":" + num(t) + ",\"x\":[" + num(b & 255) + "]");
        } else if (op == "copy") {
            int h = 4;
            if (!(is >> x >> y >> h) || x == y || get(x) == nullptr || get(y) == nullptr || !get(x)->ready || !get(y)->ready) {
                return;
            }
            object &p = *get(x), &q = *get(y);
            std::size_t m = 0;
            if (p.h || q.h) {
                wait_and_tell();             // the data objects are made anew
            }
            const auto hint = static_cast<type::copy_type>(h);
            const bool c = r.below(2);
            vecmem::copy::event_type e;
            int t = 0;
            if ((p.h && !host_sizes(*p.h, m)) || (q.h && !host_sizes(*q.h, m))) {
                // No views of these.
                t = attempt([&] {
                    if (p.h) {
                        cwhole(p);
                    }
                    whole(q);
                });
            } else if (c) {
                cview f = cwhole(p);
                view w = whole(q);
                t = attempt([&] { e = cp(f, w, hint); });
            } else {
                view f = whole(p), w = whole(q);
                t = attempt([&] { e = cp(f, w, hint); });
            }
            ups().clear();
            finish(std::move(e), {x, y}, "\"op\":\"copy\",\"f\":" + num(ll(x)) + ",\"t\":" + num(ll(y)) + ",\"hint\":" + num(h) + ",\"thr\":" + num(t));
        } else if (op == "tv") {
            int h = 4;
            std::size_t m = 0;
            if (!(is >> x >> y >> h) || x == y || get(x) == nullptr || get(y) == nullptr || !get(x)->ready || get(y)->kind != 'h' || (get(x)->h && !host_sizes(*get(x)->h, m))) {
                return;
            }
            wait_and_tell();
            object &p = *get(x), &q = *get(y);
            q.d.reset();
            q.cd.reset();
            const auto hint = static_cast<type::copy_type>(h);
            const bool c = r.below(2);
            vecmem::copy::event_type e;
            int t = 0;
            if (c) {
                cview f = cwhole(p);
                t = attempt([&] { e = cp(f, *q.h, hint); });
            } else {
                view f = whole(p);
                t = attempt([&] { e = cp(f, *q.h, hint); });
            }
            ups().clear();
            finish(std::move(e), {x, y}, "\"op\":\"tv\",\"f\":" + num(ll(x)) + ",\"t\":" + num(ll(y)) + ",\"hint\":" + num(h) + ",\"thr\":" + num(t));
        } else if (op == "gs") {
            std::size_t m = 0;
            if (!(is >> x) || get(x) == nullptr || !get(x)->ready || (get(x)->h && !host_sizes(*get(x)->h, m))) {
                return;
            }
            if (get(x)->h) {
                wait_and_tell();
            }
            view v = whole(*get(x));
            unsigned n = 0;
            const int t = attempt([&] { n = cp.get_size(v); });
            ups().clear();
            event("\"op\":\"gs\"," + who() + ",\"thr\":" + num(t) + ",\"r\":[" + num(cap(n)) + "]");
        } else if (op == "free") {
            if (!(is >> x) || get(x) == nullptr) {
                return;
            }
            wait_and_tell();
            object& o = *get(x);
            o.d.reset();
            o.cd.reset();
            ups().clear();
            attempt([&] {
                o.h.reset();
                o.b.reset();
            });
            o.live = false;
            event("\"op\":\"free\"," + who());
        } else if (op == "mv") {
            if (!(is >> x) || get(x) == nullptr || get(x)->kind == 'h') {
                return;
            }
            wait_and_tell();
            object& p = *get(x);
            auto q = std::make_unique<object>();
            q->rz = p.rz;
            q->kind = p.kind;
            q->dev = p.dev;
            q->dd = p.dd;
            q->ready = p.ready;
            ups().clear();
            attempt([&] {
                q->b = std::make_unique<buffer>(std::move(*p.b));
                p.b.reset();
            });
            p.live = false;
            made(std::move(q), "\"op\":\"mv\",\"f\":" + num(ll(x)));
        } else if (op == "ma") {      // x takes over what y has
            if (!(is >> x >> y) || get(x) == nullptr || get(y) == nullptr || x == y || get(x)->kind == 'h' || get(y)->kind == 'h') {
                return;
            }
            wait_and_tell();
            object &q = *get(x), &p = *get(y);
            ups().clear();
            attempt([&] {
                *q.b = std::move(*p.b);
                p.b.reset();
            });
            q.rz = p.rz;
            q.kind = p.kind;
            q.dev = p.dev;
            q.dd = p.dd;
            q.ready = p.ready;
            p.live = false;
            event("\"op\":\"ma\",\"f\":" + num(ll(y)) + "," + who() + layout(q));
        } else if (op == "wait") {
            wait_and_tell();
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
    }
};
template <typename T>
using S = vt::scalar<T>;
template <typename T>
using L = vt::vector<T>;
template <typename T>
using J = vt::jagged_vector<T>;
using P = plain<12, 4>;
using A = plain<32, 32>;
using C = unsigned char;
}  // namespace
namespace vp {
#if PART == 1
std::unique_ptr<any_world> worlds1(char t, std::uint64_t seed, int mode) {
    switch (t) {
        case 'a': return std::make_unique<world<S<int>, L<int>, L<C>>>(seed, mode);
        case 'c': return std::make_unique<world<L<int>>>(seed, mode);
        case 'f': return std::make_unique<world<J<C>>>(seed, mode);
    }
    return nullptr;
}
#elif PART == 2
std::unique_ptr<any_world> worlds2(char t, std::uint64_t seed, int mode) {
    switch (t) {
        case 'b': return std::make_unique<world<L<C>, L<A>, S<C>, L<P>>>(seed, mode);
        case 'd': return std::make_unique<world<J<int>, S<P>, L<C>, J<C>>>(seed, mode);
    }
    return nullptr;
}
#else
std::unique_ptr<any_world> worlds3(char, std::uint64_t seed, int mode) {
    return std::make_unique<world<S<C>, L<C>, J<A>, L<int>>>(seed, mode);
}
#endif
}  // namespace vp
#else

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string t;
            std::uint64_t seed = 1;
            int mode = 0;
            is >> t >> seed >> mode;
            w.reset();
            w = t == "b" || t == "d" ? worlds2(t[0], seed, mode) : t == "e" ? worlds3(t[0], seed, mode) : worlds1(t[0], seed, mode);
            continue;
        }
        if (!op.empty() && w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
#endif
