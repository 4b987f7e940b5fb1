// Conformance driver for buffers and copies (C24 to C29, spec/Copy.tla).
// Lines (objects are numbered from 1 in the order in which they are made):
//   R type seed mode        element type: c i p A; mode: see mock_copy
//   h1 n                    host vector
//   hj n1 n2 ..             jagged host vector
//   b1 n rz dev             buffer (rz: resizable; dev: device memory)
//   bj rz dev n1 n2 ..      jagged buffer
//   bv X rz dev             jagged buffer made after a view
//   b0 jag                  default constructed buffer
//   setup o, ms X byte, copy X Y hint, tv X o hint, to X dev hint,
//   gs X, ss X n1 n2 ..     X, Y: o | o:r:i (row) | o:s:a:n (n elements from a
//                           on) | o:p:k (first k rows)
//   wr o r i v, rz o r n, free o, mv o, ma o p, wait
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "mock_copy.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/jagged_vector_data.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/jagged_vector.hpp"
#include "vecmem/containers/vector.hpp"
using namespace vp;

void* operator new(std::size_t n) { return heap_new(n); }
void* operator new[](std::size_t n) { return heap_new(n); }
void operator delete(void* p) noexcept { heap_delete(p); }
void operator delete[](void* p) noexcept { heap_delete(p); }
void operator delete(void* p, std::size_t) noexcept { heap_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { heap_delete(p); }

namespace {
using type = vecmem::copy::type;
struct operand {
    std::size_t o = 0;
    char m = 'w';
    std::size_t a = 0, b = 0;
    bool parse(const std::string& s) {
        unsigned long x = 0, y = 0, z = 0;
        char c = 0;
        const int n = std::sscanf(s.c_str(), "%lu:%c:%lu:%lu", &x, &c, &y, &z);
        if (n < 1) {
            return false;
        }
        o = x;
        m = n > 1 ? c : 'w';
        a = y;
        b = z;
        return true;
    }
    std::string str() const {
        return "[" + num(static_cast<long long>(o)) + ",\"" + m + "\"," + num(static_cast<long long>(a)) + "," + num(static_cast<long long>(b)) + "]";
    }
};
struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};

template <typename T>
struct world : any_world {
    using view1 = vecmem::data::vector_view<T>;
    using viewj = vecmem::data::jagged_vector_view<T>;
    using cview1 = vecmem::data::vector_view<const T>;
    using cviewj = vecmem::data::jagged_vector_view<const T>;
    using buf1 = vecmem::data::vector_buffer<T>;
    using bufj = vecmem::data::jagged_vector_buffer<T>;
    struct object {
        bool live = true, jag = false, rz = false, busy = false;
        bool ready = true;           // sizes are valid
        bool dd = false;             // device descriptors may be compared
        char kind = 'h';
        int dev = 0;
        std::string last;
        std::unique_ptr<vecmem::vector<T>> h1;
        std::unique_ptr<vecmem::jagged_vector<T>> hj;
        std::unique_ptr<buf1> b1;
        std::unique_ptr<bufj> bj;
        std::unique_ptr<vecmem::data::jagged_vector_data<T>> dj;
    };
    std::vector<std::unique_ptr<object>> os;
    struct outstanding {
        vecmem::copy::event_type e;
        std::vector<std::size_t> who;
        std::vector<std::unique_ptr<std::vector<unsigned>>> kept;
    };
    std::vector<outstanding> events;
    mock_copy cp;
    rng r{1};
    int mode;

    world(std::uint64_t seed, int m) : r(seed), mode(m) {
        host_mem().restart(seed);
        dev_mem().restart(seed + 1);
        ups().clear();
        auto& s = mock_copy::st();
        s = mock_copy::state();
        s.mode = m;
        s.r = rng(seed + 5);
        emit("{\"e\":\"R\"}");
    }
    ~world() override {
        wait_all();
        os.clear();
        ups().clear();
        emit("{\"e\":\"drop\",\"out\":" + num(static_cast<long long>(host_mem().live.size() + dev_mem().live.size())) + ",\"bad\":" + num(host_mem().bad + dev_mem().bad) + "}");
    }
    object* get(std::size_t i) { return i >= 1 && i <= os.size() && os[i - 1]->live ? os[i - 1].get() : nullptr; }
    vecmem::memory_resource& mem(int dev) { return dev ? static_cast<vecmem::memory_resource&>(dev_mem()) : host_mem(); }

    // -------------------------------------------------------- observation ---
    static void row_of(std::string& c, std::string& s, std::string& v, std::size_t cap_, long long size, const T* p) {
        const std::string comma = c.empty() ? "" : ",";
        c += comma + num(cap(cap_));
        s += comma + num(size);
        std::vector<int> x;
        for (std::size_t i = 0; i < cap_ && i < 1000; ++i) {
            x.push_back(raw_get(p + i, sizeof(T)));
        }
        v += comma + list(x);
    }
    static void row_of(std::string& c, std::string& s, std::string& v, view1 w) {
        const long long n = w.size_ptr() ? cap(*w.size_ptr()) : static_cast<long long>(w.capacity());
        row_of(c, s, v, w.capacity(), n, w.ptr());
    }
    std::string look(object& o) {
        untracked u;
        arena::opened op(dev_mem());
        std::string c, s, v;
        int dd = 1;
        if (o.h1) {
            row_of(c, s, v, o.h1->size(), static_cast<long long>(o.h1->size()), o.h1->data());
        } else if (o.hj) {
            for (auto& x : *o.hj) {
                row_of(c, s, v, x.size(), static_cast<long long>(x.size()), x.data());
            }
        } else if (o.b1) {
            row_of(c, s, v, *o.b1);
        } else {
            for (std::size_t i = 0; i < o.bj->size(); ++i) {
                row_of(c, s, v, o.bj->host_ptr()[i]);
            }
            if (o.dd) {
                for (std::size_t i = 0; i < o.bj->size(); ++i) {
                    dd = dd && o.bj->ptr()[i] == o.bj->host_ptr()[i];
                }
            }
        }
        return "{\"n\":0,\"c\":[" + c + "],\"s\":[" + s + "],\"v\":[" + v + "],\"dd\":" + num(dd) + "}";
    }
    std::string observations(bool all = true) {
        std::string s = ",\"obs\":[";
        for (std::size_t i = 0; i < os.size(); ++i) {
            object& o = *os[i];
            s += i ? "," : "";
            if (!o.live) {
                s += "{\"n\":2}";
            } else if (o.busy) {
                s += "{\"n\":1}";
                o.last.clear();
            } else {
                const std::string x = look(o);
                s += x == o.last ? "{\"n\":3}" : x;      // 3: as seen last time
                o.last = x;
            }
        }
        untracked u;
        arena::opened op(dev_mem());
        const bool ok = host_mem().intact() && dev_mem().intact();
        auto& st = mock_copy::st();
        s += "],\"g\":" + num(ok) + ",\"oob\":" + num(st.oob) + ",\"dead\":" + num(st.dead) + ",\"tr\":[";
        for (std::size_t i = 0; i < st.log.size(); ++i) {
            s += (i ? "," : "") + st.log[i];
        }
        st.log.clear();
        return s + "],\"ups\":" + take_ups();
    }
    void event(const std::string& fields) { emit("{\"e\":\"op\"," + fields + observations() + "}"); }
    // Where everything lies: [arena position, length, wrongly aligned].
    static std::string piece(const void* p, std::size_t n, std::size_t al) {
        if (p == nullptr) {
            return "[-1," + num(static_cast<long long>(n)) + ",0]";
        }
        arena* a = host_mem().has(p) ? &host_mem() : dev_mem().has(p) ? &dev_mem() : nullptr;
        return "[" + (a ? num(a->pos(p)) : "-2") + "," + num(static_cast<long long>(n)) + "," + num(reinterpret_cast<std::uintptr_t>(p) % al != 0) + "]";
    }
    std::string layout(object& o) {
        std::string s = ",\"lay\":[";
        bool first = true;
        const auto add = [&](const std::string& x) {
            s += (first ? "" : ",") + x;
            first = false;
        };
        const auto row = [&](view1 v) {
            if (v.size_ptr() != nullptr) {
                add(piece(v.size_ptr(), sizeof(unsigned), alignof(unsigned)));
            }
            if (v.capacity() > 0) {
                add(piece(v.ptr(), v.capacity() * sizeof(T), alignof(T)));
            }
        };
        if (o.b1) {
            row(*o.b1);
        } else if (o.bj) {
            const std::size_t n = o.bj->size();
            if (n > 0) {
                add(piece(o.bj->host_ptr(), n * sizeof(view1), alignof(view1)));
                if (o.bj->ptr() != o.bj->host_ptr()) {
                    add(piece(o.bj->ptr(), n * sizeof(view1), alignof(view1)));
                }
            }
            for (std::size_t i = 0; i < n; ++i) {
                row(o.bj->host_ptr()[i]);
            }
        }
        return s + "],\"es\":" + num(sizeof(T));
    }
    void made(std::unique_ptr<object> o, const std::string& fields) {
        os.push_back(std::move(o));
        object& p = *os.back();
        event(fields + ",\"jag\":" + num(p.jag) + ",\"k\":\"" + p.kind + "\",\"dev\":" + num(p.dev) + layout(p));
    }

    // ----------------------------------------------------------- operands ---
    std::size_t rows(const object& o) const { return !o.jag ? 1 : o.hj ? o.hj->size() : o.bj->size(); }
    view1 whole1(object& o) { return o.h1 ? vecmem::get_data(*o.h1) : vecmem::get_data(*o.b1); }
    // The descriptors of a jagged host vector are kept with it.
    viewj wholej(object& o) {
        if (o.hj) {
            if (r.below(2)) {
                o.dj = std::make_unique<vecmem::data::jagged_vector_data<T>>(vecmem::get_data(*o.hj, &host_mem()));
            } else {
                o.dj = std::make_unique<vecmem::data::jagged_vector_data<T>>(vecmem::get_data(*o.hj));
            }
            return vecmem::get_data(*o.dj);
        }
        return vecmem::get_data(*o.bj);
    }
    // 1: one-dimensional, 2: jagged, 0: not applicable
    int shape(const operand& x, bool sizes = true) {
        object* o = get(x.o);
        if (o == nullptr || (sizes && !o->ready)) {
            return 0;
        }
        switch (x.m) {
            case 'w': return o->jag ? 2 : 1;
            case 'r': return o->jag && x.a < rows(*o) ? 1 : 0;
            case 's': return !o->jag && x.a + x.b <= whole1(*o).capacity() ? 1 : 0;
            case 'p': return o->jag && x.a <= rows(*o) ? 2 : 0;
        }
        return 0;
    }
    view1 v1(const operand& x) {
        object& o = *get(x.o);
        if (x.m == 'r') {
            return o.hj ? vecmem::get_data((*o.hj)[x.a]) : o.bj->host_ptr()[x.a];
        }
        view1 v = whole1(o);
        if (x.m == 's') {
            return view1(static_cast<unsigned>(x.b), v.ptr() + x.a);
        }
        return v;
    }
    viewj vj(const operand& x) {
        viewj v = wholej(*get(x.o));
        return x.m == 'p' ? viewj(x.a, v.ptr(), v.host_ptr()) : v;
    }
    void wait_all() {
        if (events.empty()) {
            return;
        }
        {
            library l;
            if (r.below(2)) {
                for (auto& e : events) {
                    e.e->wait();
                }
            } else {
                // In one stream of transfers, the last event comes last.
                events.back().e->wait();
                for (auto& e : events) {
                    e.e->ignore();
                }
                for (auto& e : events) {
                    e.e->wait();
                }
            }
        }
        events.clear();
        for (auto& o : os) {
            o->busy = false;
        }
    }
    void wait_and_tell() {
        if (!events.empty()) {
            wait_all();
            event("\"op\":\"wait\"");
        }
    }
    void keep(vecmem::copy::event_type e, std::vector<std::size_t> who, std::unique_ptr<std::vector<unsigned>> kept = nullptr) {
        outstanding x;
        x.e = std::move(e);
        x.who = who;
        if (kept) {
            x.kept.push_back(std::move(kept));
        }
        events.push_back(std::move(x));
        for (std::size_t w : who) {
            os[w - 1]->busy = true;
        }
        if (mode == 0) {
            wait_all();
        }
    }
    // 0: done, 1: length_error, 2: something else
    template <typename F>
    int attempt(F f) {
        library l;
        try {
            f();
            return 0;
        } catch (const std::length_error&) {
            return 1;
        } catch (const std::exception&) {
            return 2;
        }
    }

    void operate(const std::string& op, std::istringstream& is) override {
        if (os.size() >= 14 && (op[0] == 'h' || op[0] == 'b' || op == "to" || op == "mv")) {
            return;
        }
        std::string a, b;
        if (op == "h1" || op == "hj") {
            auto o = std::make_unique<object>();
            if (op == "h1") {
                std::size_t n = 0;
                is >> n;
                o->h1 = std::make_unique<vecmem::vector<T>>(&host_mem());
                for (std::size_t i = 0; i < n; ++i) {
                    o->h1->push_back(with_value<T>(static_cast<int>(r.below(256))));
                }
            } else {
                o->jag = true;
                o->hj = std::make_unique<vecmem::jagged_vector<T>>(&host_mem());
                std::size_t n;
                while (is >> n) {
                    o->hj->emplace_back();
                    for (std::size_t i = 0; i < n; ++i) {
                        o->hj->back().push_back(with_value<T>(static_cast<int>(r.below(256))));
                    }
                }
            }
            ups().clear();
            made(std::move(o), "\"op\":\"host\"");
        } else if (op == "b1" || op == "bj") {
            auto o = std::make_unique<object>();
            std::vector<std::size_t> x;
            int rz = 0, dev = 0;
            std::size_t n = 0;
            if (op == "b1") {
                is >> n >> rz >> dev;
                x.push_back(n);
            } else {
                is >> rz >> dev;
                while (is >> n) {
                    x.push_back(n);
                }
            }
            o->rz = rz;
            o->ready = !rz;
            o->kind = rz ? 'r' : 'f';
            o->dev = dev;
            o->jag = op == "bj";
            const auto bt = rz ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size;
            ups().clear();
            const std::uint64_t c = r.below(5);
            const auto most = x.empty() ? 0 : *std::max_element(x.begin(), x.end());
            const int t = attempt([&] {
                vecmem::memory_resource* hm = dev || (c & 1) ? &host_mem() : nullptr;
                if (o->jag && c == 3 && most < 256) {
                    o->bj = std::make_unique<bufj>(std::vector<unsigned char>(x.begin(), x.end()), mem(dev), hm, bt);
                } else if (o->jag && c == 4 && most < 65536) {
                    o->bj = std::make_unique<bufj>(std::vector<unsigned short>(x.begin(), x.end()), mem(dev), hm, bt);
                } else if (!o->jag) {
                    o->b1 = std::make_unique<buf1>(static_cast<unsigned>(n), mem(dev), bt);
                } else if (c == 0) {
                    std::vector<unsigned> y(x.begin(), x.end());
                    o->bj = std::make_unique<bufj>(y, mem(dev), dev || (c & 1) ? &host_mem() : nullptr, bt);
                } else {
                    o->bj = std::make_unique<bufj>(x, mem(dev), dev || c == 1 ? &host_mem() : nullptr, bt);
                }
            });
            if (t == 0) {
                std::vector<int> y(x.begin(), x.end());
                made(std::move(o), "\"op\":\"buf\",\"x\":" + list(y));
            } else {
                event("\"op\":\"failed\"");
            }
        } else if (op == "bv") {
            operand x;
            int rz = 0, dev = 0;
            if (!(is >> a >> rz >> dev) || !x.parse(a) || shape(x) != 2 || (get(x.o)->rz && get(x.o)->dev)) {
                return;                   // the host has to be able to see the sizes
            }
            wait_and_tell();
            auto o = std::make_unique<object>();
            o->jag = true;
            o->rz = rz;
            o->ready = !rz;
            o->kind = rz ? 'r' : 'f';
            o->dev = dev;
            const auto bt = rz ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size;
            const std::uint64_t c = r.below(4);
            viewj f = vj(x);
            cviewj g(f);
            ups().clear();
            const int t = attempt([&] {
                vecmem::memory_resource* hm = dev || (c & 1) ? &host_mem() : nullptr;
                if (c & 2) {
                    o->bj = rz || (c & 1) ? std::make_unique<bufj>(g, mem(dev), hm, bt) : std::make_unique<bufj>(g, mem(dev), hm);
                } else {
                    o->bj = rz || (c & 1) ? std::make_unique<bufj>(f, mem(dev), hm, bt) : std::make_unique<bufj>(f, mem(dev), hm);
                }
            });
            if (t == 0) {
                made(std::move(o), "\"op\":\"bufv\",\"f\":" + x.str());
            } else {
                event("\"op\":\"failed\"");
            }
        } else if (op == "b0") {
            int jag = 0;
            is >> jag;
            auto o = std::make_unique<object>();
            o->jag = jag;
            o->kind = 'f';
            ups().clear();
            if (jag) {
                o->bj = std::make_unique<bufj>();
            } else {
                o->b1 = std::make_unique<buf1>();
            }
            made(std::move(o), std::string("\"op\":\"buf\",\"x\":") + (jag ? "[]" : "[0]"));
        } else if (op == "setup") {
            operand x;
            if (!(is >> a) || !x.parse(a) || x.m != 'w' || shape(x, false) == 0 || get(x.o)->kind == 'h') {
                return;
            }
            object& o = *get(x.o);
            o.ready = true;
            vecmem::copy::event_type e;
            if (o.jag) {
                const bool c = r.below(2);
                viewj v = vj(x);
                const int t = attempt([&] { e = c ? cp.setup(*o.bj) : cp.setup(v); });
                (void)t;
                o.dd = true;
            } else {
                const bool c = r.below(2);
                view1 v = v1(x);
                attempt([&] { e = c ? cp.setup(*o.b1) : cp.setup(v); });
            }
            finish(std::move(e), {x.o}, "\"op\":\"setup\",\"t\":" + x.str() + ",\"thr\":0");
        } else if (op == "ms") {
            operand x;
            int v = 0;
            if (!(is >> a >> v) || !x.parse(a) || shape(x, false) == 0) {
                return;
            }
            vecmem::copy::event_type e;
            int t;
            unsigned char bytes[64];
            std::memset(bytes, v, sizeof bytes);
            const int value = raw_get(bytes, sizeof(T));
            if (shape(x, false) == 2) {
                viewj w = vj(x);
                t = attempt([&] { e = cp.memset(w, v); });
            } else {
                view1 w = v1(x);
                t = attempt([&] { e = cp.memset(w, v); });
            }
            finish(std::move(e), {x.o}, "\"op\":\"ms\",\"t\":" + x.str() + ",\"thr\":" + num(t) + ",\"x\":[" + num(value) + "]");
        } else if (op == "copy") {
            operand x, y;
            int h = 4;
            if (!(is >> a >> b >> h) || !x.parse(a) || !y.parse(b) || x.o == y.o || shape(x) == 0 || shape(x) != shape(y)) {
                return;
            }
            const auto hint = static_cast<type::copy_type>(h);
            vecmem::copy::event_type e;
            int t;
            const bool c = r.below(2);
            if (shape(x) == 2) {
                viewj f = vj(x), w = vj(y);
                object &p = *get(x.o), &q = *get(y.o);
                if (c && p.bj && q.bj && x.m == 'w' && y.m == 'w') {
                    t = attempt([&] { e = cp(*p.bj, *q.bj, hint); });
                } else if (c) {
                    cviewj g(f);
                    t = attempt([&] { e = cp(g, w, hint); });
                } else {
                    t = attempt([&] { e = cp(f, w, hint); });
                }
            } else {
                view1 f = v1(x), w = v1(y);
                object &p = *get(x.o), &q = *get(y.o);
                if (c && p.b1 && q.b1 && x.m == 'w' && y.m == 'w') {
                    t = attempt([&] { e = cp(*p.b1, *q.b1, hint); });
                } else if (c) {
                    cview1 g(f);
                    t = attempt([&] { e = cp(g, w, hint); });
                } else {
                    t = attempt([&] { e = cp(f, w, hint); });
                }
            }
            finish(std::move(e), {x.o, y.o}, "\"op\":\"copy\",\"f\":" + x.str() + ",\"t\":" + y.str() + ",\"hint\":" + num(h) + ",\"thr\":" + num(t));
        } else if (op == "tv") {
            operand x;
            std::size_t y;
            int h = 4;
            if (!(is >> a >> y >> h) || !x.parse(a) || x.o == y || shape(x) == 0 || get(y) == nullptr || get(y)->kind != 'h' || get(y)->jag != (shape(x) == 2)) {
                return;
            }
            wait_and_tell();
            const auto hint = static_cast<type::copy_type>(h);
            vecmem::copy::event_type e;
            int t;
            object& q = *get(y);
            q.dj.reset();
            ups().clear();
            if (q.jag) {
                viewj f = vj(x);
                t = attempt([&] { e = cp(f, *q.hj, hint); });
            } else {
                view1 f = v1(x);
                t = attempt([&] { e = cp(f, *q.h1, hint); });
            }
            finish(std::move(e), {x.o, y}, "\"op\":\"tv\",\"f\":" + x.str() + ",\"t\":[" + num(static_cast<long long>(y)) + ",\"w\",0,0],\"hint\":" + num(h) + ",\"thr\":" + num(t));
        } else if (op == "to") {
            operand x;
            int dev = 0, h = 4;
            if (!(is >> a >> dev >> h) || !x.parse(a) || shape(x) == 0) {
                return;
            }
            const auto hint = static_cast<type::copy_type>(h);
            auto o = std::make_unique<object>();
            o->kind = 'f';
            o->dev = dev;
            o->jag = shape(x) == 2;
            const bool c = r.below(2), d = r.below(2);
            int t;
            if (o->jag) {
                viewj f = vj(x);
                cviewj g(f);
                ups().clear();
                t = attempt([&] {
                    vecmem::memory_resource* hm = dev || d ? &host_mem() : nullptr;
                    untracked_object(o->bj, [&] { return c ? cp.to(g, mem(dev), hm, hint) : cp.to(f, mem(dev), hm, hint); });
                });
                o->dd = true;
            } else {
                view1 f = v1(x);
                cview1 g(f);
                ups().clear();
                t = attempt([&] { untracked_object(o->b1, [&] { return c ? cp.to(g, mem(dev), hint) : cp.to(f, mem(dev), hint); }); });
            }
            if (t == 0) {
                made(std::move(o), "\"op\":\"to\",\"f\":" + x.str() + ",\"hint\":" + num(h));
            } else {
                event("\"op\":\"failed\"");
            }
        } else if (op == "gs") {
            operand x;
            if (!(is >> a) || !x.parse(a) || shape(x) == 0) {
                return;
            }
            std::vector<int> got;
            int t;
            if (shape(x) == 2) {
                viewj f = vj(x);
                std::vector<unsigned> res;
                t = attempt([&] { res = cp.get_sizes(f); });
                for (unsigned k : res) {
                    got.push_back(static_cast<int>(cap(k)));
                }
            } else {
                view1 f = v1(x);
                unsigned k = 0;
                t = attempt([&] { k = cp.get_size(f); });
                got.push_back(static_cast<int>(cap(k)));
            }
            event("\"op\":\"gs\",\"f\":" + x.str() + ",\"thr\":" + num(t) + ",\"r\":" + list(got));
        } else if (op == "ss") {
            operand x;
            if (!(is >> a) || !x.parse(a) || shape(x) != 2) {
                return;
            }
            auto sizes = std::make_unique<std::vector<unsigned>>();
            std::vector<int> y;
            unsigned k;
            while (is >> k) {
                sizes->push_back(k);
                y.push_back(static_cast<int>(k));
            }
            viewj f = vj(x);
            vecmem::copy::event_type e;
            const int t = attempt([&] { e = cp.set_sizes(*sizes, f); });
            finish(std::move(e), {x.o}, "\"op\":\"ss\",\"t\":" + x.str() + ",\"thr\":" + num(t) + ",\"x\":" + list(y), std::move(sizes));
        } else if (op == "wr") {
            std::size_t o, row, i;
            int v;
            if (!(is >> o >> row >> i >> v) || get(o) == nullptr || row >= rows(*get(o)) || !get(o)->ready || v < 0 || v > 255) {
                return;
            }
            wait_and_tell();
            object& p = *get(o);
            view1 w = v1({o, p.jag ? 'r' : 'w', row, 0});
            if (i >= w.capacity()) {
                return;
            }
            {
                arena::opened op(dev_mem());
                raw_put(w.ptr() + i, sizeof(T), v);
            }
            ups().clear();
            event("\"op\":\"wr\",\"t\":[" + num(static_cast<long long>(o)) + ",\"w\",0,0],\"x\":[" + num(static_cast<long long>(row)) + "," + num(static_cast<long long>(i)) + "," + num(v) + "]");
        } else if (op == "rz") {
            std::size_t o, row;
            unsigned n;
            if (!(is >> o >> row >> n) || get(o) == nullptr || row >= rows(*get(o)) || !get(o)->rz || !get(o)->ready) {
                return;
            }
            wait_and_tell();
            object& p = *get(o);
            view1 w = v1({o, p.jag ? 'r' : 'w', row, 0});
            if (n > w.capacity() || w.size_ptr() == nullptr) {
                return;
            }
            {
                arena::opened op(dev_mem());
                *w.size_ptr() = n;
            }
            event("\"op\":\"rz\",\"t\":[" + num(static_cast<long long>(o)) + ",\"w\",0,0],\"x\":[" + num(static_cast<long long>(row)) + "," + num(n) + "]");
        } else if (op == "free") {
            std::size_t o;
            if (!(is >> o) || get(o) == nullptr) {
                return;
            }
            wait_and_tell();
            object& p = *get(o);
            p.dj.reset();
            ups().clear();
            attempt([&] {
                p.h1.reset();
                p.hj.reset();
                p.b1.reset();
                p.bj.reset();
            });
            p.live = false;
            event("\"op\":\"free\",\"t\":[" + num(static_cast<long long>(o)) + ",\"w\",0,0]");
        } else if (op == "mv") {
            std::size_t o;
            if (!(is >> o) || get(o) == nullptr || get(o)->kind == 'h') {
                return;
            }
            wait_and_tell();
            object& p = *get(o);
            auto q = std::make_unique<object>();
            q->jag = p.jag;
            q->rz = p.rz;
            q->kind = p.kind;
            q->dev = p.dev;
            q->dd = p.dd;
            q->ready = p.ready;
            ups().clear();
            attempt([&] {
                if (p.b1) {
                    q->b1 = std::make_unique<buf1>(std::move(*p.b1));
                    p.b1.reset();
                } else {
                    q->bj = std::make_unique<bufj>(std::move(*p.bj));
                    p.bj.reset();
                }
            });
            p.live = false;
            made(std::move(q), "\"op\":\"mv\",\"o\":" + num(static_cast<long long>(o)));
        } else if (op == "ma") {      // o takes over what p has
            std::size_t o, pp;
            if (!(is >> o >> pp) || get(o) == nullptr || get(pp) == nullptr || o == pp || get(o)->kind == 'h' || get(pp)->kind == 'h' || get(o)->jag != get(pp)->jag) {
                return;
            }
            wait_and_tell();
            object &q = *get(o), &p = *get(pp);
            ups().clear();
            attempt([&] {
                if (p.b1) {
                    *q.b1 = std::move(*p.b1);
                    p.b1.reset();
                } else {
                    *q.bj = std::move(*p.bj);
                    p.bj.reset();
                }
            });
            q.rz = p.rz;
            q.kind = p.kind;
            q.dev = p.dev;
            q.dd = p.dd;
            q.ready = p.ready;
            p.live = false;
            event("\"op\":\"ma\",\"o\":" + num(static_cast<long long>(pp)) + ",\"t\":[" + num(static_cast<long long>(o)) + ",\"w\",0,0]" + layout(q));
        } else if (op == "wait") {
            wait_and_tell();
        } else {
            std::fprintf(stderr, "unknown operation %s\n", op.c_str());
            std::exit(3);
        }
    }
    template <typename B, typename F>
    void untracked_object(std::unique_ptr<B>& out, F f) {
        B res = f();
        untracked u;
        out = std::make_unique<B>(std::move(res));
    }
    void finish(vecmem::copy::event_type e, std::vector<std::size_t> who, const std::string& fields, std::unique_ptr<std::vector<unsigned>> kept = nullptr) {
        std::string up;
        if (e) {
            keep(std::move(e), std::move(who), std::move(kept));
        }
        event(fields);
    }
};
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            std::string t;
            std::uint64_t seed = 1;
            int mode = 0;
            is >> t >> seed >> mode;
            w.reset();
            switch (t[0]) {
                case 'c': w = std::make_unique<world<unsigned char>>(seed, mode); break;
                case 'p': w = std::make_unique<world<plain<12, 4>>>(seed, mode); break;
                case 'A': w = std::make_unique<world<plain<32, 32>>>(seed, mode); break;
                default: w = std::make_unique<world<int>>(seed, mode);
            }
            continue;
        }
        if (!op.empty() && w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    return 0;
}
