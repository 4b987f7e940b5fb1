// Conformance driver for vectors with more elements or bytes than 16, 31 or 32
// bits can count (spec/Big.tla).  Memory is only reserved; what is looked at
// are some elements ("marks") of each vector.  Lines (objects are numbered from
// 1 in the order in which they are made, rows of an object from 0):
//   R type p1 p2 ..     c (1 byte), i (4 bytes), d (8 bytes), B (7160 bytes); positions looked at
//   v rz n              1D buffer of capacity n
//   j rz n1 n2 ..       jagged buffer
//   m rz rows n1 n2 ..  jagged buffer of that many rows (65540 or more), of which
//                       the first, the last and some at 2^16 have the given
//                       capacities and are looked at; of the others it is 1
//   e rz n              structured buffer: two vectors (the type, bytes), a scalar
//   f rz n1 n2 ..       structured buffer: jagged (the type), vector (the type), jagged (bytes)
//   fill o seed         writes all marks directly
//   sz o row n          sets a size variable directly
//   ms o byte, copy o p, via o p (a copy by way of a host vector, kind m only)
//   pb o row v, pop o row, ba o row n v, rs o row n v: device_vector
//   di o row            what a device vector says about it
//   dpb o               push_back_default of a device container
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>

#include "trace.hpp"
#include "vecmem/containers/data/jagged_vector_buffer.hpp"
#include "vecmem/containers/data/vector_buffer.hpp"
#include "vecmem/containers/device_vector.hpp"
#include "vecmem/containers/jagged_device_vector.hpp"
#include "vecmem/edm/buffer.hpp"
#include "vecmem/edm/container.hpp"
#include "vecmem/edm/device.hpp"
#include "vecmem/edm/view.hpp"
#include "vecmem/utils/copy.hpp"
using namespace vp;

namespace {
// ---------------------------------------------------------------- memory ---
struct vast : vecmem::memory_resource {
    std::map<char*, std::size_t> live;
    int bad = 0;
    void* do_allocate(std::size_t n, std::size_t) override {
        if (n == 0) {
            return nullptr;
        }
        const std::size_t m = (n + 8191) / 4096 * 4096;
        void* p = ::mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            std::perror("mmap");
            _exit(3);
        }
        live[static_cast<char*>(p)] = n;
        return p;
    }
    void do_deallocate(void* p, std::size_t n, std::size_t) override {
        if (p == nullptr) {
            return;
        }
        auto i = live.find(static_cast<char*>(p));
        if (i == live.end() || i->second != n) {
            ++bad;
            return;
        }
        ::munmap(p, (n + 8191) / 4096 * 4096);
        live.erase(i);
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }
    bool holds(const void* p, std::size_t n) const {
        auto i = live.upper_bound(const_cast<char*>(static_cast<const char*>(p)));
        if (i == live.begin()) {
            return false;
        }
        --i;
        return static_cast<const char*>(p) + n <= i->first + i->second;
    }
};
vast& mem() {
    static vast v;
    return v;
}
// Addresses and lengths of all the elements that are looked at.
std::map<char*, std::size_t>& marks() {
    static std::map<char*, std::size_t> m;
    return m;
}
int g_oob = 0;
constexpr std::size_t WHOLE = 1u << 20;
// Transfers; of the long ones only what is looked at, in source or target.
struct sparse_copy : vecmem::copy {
    void do_copy(std::size_t n, const void* from_, void* to_, type::copy_type) const override {
        if (n == 0) {
            return;
        }
        const char* from = static_cast<const char*>(from_);
        char* to = static_cast<char*>(to_);
        const bool host = n <= WHOLE;
        if ((!mem().holds(from, n) && !host) || (!mem().holds(to, n) && !host)) {
            ++g_oob;
            return;
        }
        if (n <= WHOLE) {
            std::memmove(to, from, n);
            return;
        }
        const auto bytes = [&](const char* base, auto f) {
            auto i = marks().lower_bound(const_cast<char*>(base));
            for (auto k = (i == marks().begin() ? i : std::prev(i)); k != marks().end() && k->first < base + n; ++k) {
                for (std::size_t b = 0; b < k->second; ++b) {
                    if (k->first + b >= base && k->first + b < base + n) {
                        f(k->first + b - base);
                    }
                }
            }
        };
        bytes(from, [&](std::ptrdiff_t o) { to[o] = from[o]; });
        bytes(to, [&](std::ptrdiff_t o) { to[o] = from[o]; });
    }
    void do_memset(std::size_t n, void* p, int value) const override {
        char* to = static_cast<char*>(p);
        if (n == 0) {
            return;
        }
        if (!mem().holds(to, n)) {
            ++g_oob;
            return;
        }
        if (n <= WHOLE) {
            std::memset(to, value, n);
            return;
        }
        for (auto& k : marks()) {
            for (std::size_t b = 0; b < k.second; ++b) {
                if (k.first + b >= to && k.first + b < to + n) {
                    k.first[b] = static_cast<char>(value);
                }
            }
        }
    }
};

// A number; "a:b" is a * 2^24 + b.
std::size_t number(std::istringstream& is, bool* ok = nullptr) {
    std::string t;
    is >> t;
    if (ok != nullptr) {
        *ok = !t.empty();
    }
    const auto c = t.find(':');
    return c == std::string::npos ? std::strtoull(t.c_str(), nullptr, 10)
                                  : (std::strtoull(t.c_str(), nullptr, 10) << 24) + std::strtoull(t.c_str() + c + 1, nullptr, 10);
}
std::vector<std::size_t> numbers(std::istringstream& is) {
    std::vector<std::size_t> r;
    for (bool ok = true;;) {
        const std::size_t n = number(is, &ok);
        if (!ok) {
            return r;
        }
        r.push_back(n);
    }
}
std::string big(std::size_t n) {
    if (n > (1ull << 40)) {
        return "[-1,0]";
    }
    return "[" + num(static_cast<long long>(n >> 24)) + "," + num(static_cast<long long>(n & 0xffffff)) + "]";
}

struct block {
    char bytes[7160];
};
struct any_world {
    virtual ~any_world() = default;
    virtual void operate(const std::string&, std::istringstream&) = 0;
};

namespace edm = vecmem::edm;
namespace vt = vecmem::edm::type;
template <typename B>
struct plain : B {
    using B::B;
};

template <typename T>
struct world : any_world {
    using flat = edm::container<plain, vt::vector<T>, vt::scalar<int>, vt::vector<char>>;
    using deep = edm::container<plain, vt::jagged_vector<T>, vt::vector<T>, vt::jagged_vector<char>>;
    // One vector, as it is described by the object that it belongs to.
    struct row {
        std::size_t es;
        std::size_t capacity;
        char* ptr;
        unsigned* size;
    };
    struct object {
        char kind;
        bool rz = false;
        std::unique_ptr<vecmem::data::vector_buffer<T>> v;
        std::unique_ptr<vecmem::data::jagged_vector_buffer<T>> j;
        std::unique_ptr<typename flat::buffer> e;
        std::unique_ptr<typename deep::buffer> f;
        std::vector<row> rows;
        std::vector<std::size_t> idx;        // the rows that are looked at, if not all are
        std::size_t at(std::size_t r) const { return idx.empty() ? r : idx[r]; }
    };
    std::vector<std::unique_ptr<object>> os;
    std::vector<std::size_t> pos;
    sparse_copy cp;

    explicit world(std::vector<std::size_t> p) : pos(std::move(p)) {
        g_oob = 0;
        mem().bad = 0;
        marks().clear();
        std::string s;
        for (std::size_t x : pos) {
            s += (s.empty() ? "" : ",") + big(x);
        }
        emit("{\"e\":\"R\",\"P\":[" + s + "]}");
    }
    ~world() override {
        os.clear();
        marks().clear();
        emit("{\"e\":\"drop\",\"out\":" + num(static_cast<long long>(mem().live.size())) + ",\"bad\":" + num(mem().bad) + "}");
    }
    object* get(std::size_t i) { return i >= 1 && i <= os.size() ? os[i - 1].get() : nullptr; }
    template <typename U>
    static row describe(const vecmem::data::vector_view<U>& v) {
        return {sizeof(U), v.capacity(), reinterpret_cast<char*>(const_cast<std::remove_const_t<U>*>(v.ptr())), v.size_ptr()};
    }
    static std::size_t size_of(const row& r) { return r.size ? *r.size : r.capacity; }
    // -1: not all of its bytes are the same
    static int look(const char* p, std::size_t es) {
        for (std::size_t i = 1; i < es; ++i) {
            if (p[i] != p[0]) {
                return -1;
            }
        }
        return static_cast<unsigned char>(p[0]);
    }
    template <typename U>
    static U value(int v) {
        U u;
        std::memset(&u, v, sizeof(U));
        return u;
    }
    void event(const std::string& fields) {
        std::string s = ",\"obs\":[";
        for (std::size_t i = 0; i < os.size(); ++i) {
            s += i ? ",[" : "[";
            bool first = true;
            for (const row& r : os[i]->rows) {
                s += std::string(first ? "" : ",") + "{\"c\":" + big(r.capacity) + ",\"s\":" + big(size_of(r)) + ",\"v\":[";
                first = false;
                bool f = true;
                for (std::size_t p : pos) {
                    if (p < r.capacity) {
                        s += (f ? "" : ",") + num(look(r.ptr + p * r.es, r.es));
                        f = false;
                    }
                }
                s += "]}";
            }
            s += "]";
        }
        emit("{\"e\":\"op\"," + fields + s + "],\"oob\":" + num(g_oob) + "}");
    }
    void made(std::unique_ptr<object> o, const std::string& fields) {
        bool inside = true;
        for (const row& r : o->rows) {
            for (std::size_t p : pos) {
                if (p < r.capacity) {
                    marks()[r.ptr + p * r.es] = r.es;
                }
            }
            inside = inside && (r.capacity == 0 || mem().holds(r.ptr, r.capacity * r.es)) && (r.size == nullptr || mem().holds(r.size, 4));
        }
        for (const row& a : o->rows) {
            for (const row& b : o->rows) {
                inside = inside && (&a == &b || a.ptr + a.capacity * a.es <= b.ptr || b.ptr + b.capacity * b.es <= a.ptr);
            }
        }
        const std::string k(1, o->kind);
        const bool rz = o->rz;
        os.push_back(std::move(o));
        event("\"op\":\"make\",\"k\":\"" + k + "\",\"rz\":" + num(rz) + ",\"in\":" + num(inside) + fields);
    }
    static std::string caps(const std::vector<std::size_t>& n) {
        std::string s;
        for (std::size_t x : n) {
            s += (s.empty() ? "" : ",") + big(x);
        }
        return ",\"n\":[" + s + "]";
    }
    template <typename F>
    std::string guarded(F f) {
        try {
            f();
        } catch (const std::length_error&) {
            return "len";
        } catch (const std::bad_alloc&) {
            return "bad";
        } catch (...) {
            return "exc";
        }
        return "";
    }
    template <typename F>
    void with_row(object& o, std::size_t r, F f) {
        switch (o.kind) {
            case 'v': f(vecmem::data::vector_view<T>(*o.v)); break;
            case 'j': f(o.j->host_ptr()[o.at(r)]); break;
            case 'e':
                if (r == 0) {
                    f(o.e->template get<0>());
                } else {
                    f(o.e->template get<2>());
                }
                break;
            default: {
                const std::size_t n = o.f->template get<0>().size();
                if (r < n) {
                    f(o.f->template get<0>().host_ptr()[r]);
                } else if (r == n) {
                    f(o.f->template get<1>());
                } else {
                    f(o.f->template get<2>().host_ptr()[r - n - 1]);
                }
            }
        }
    }
    void operate(const std::string& op, std::istringstream& is) override {
        using bt = vecmem::data::buffer_type;
        if (op == "v" || op == "e") {
            int rz;
            is >> rz;
            const std::size_t n = number(is);
            auto o = std::make_unique<object>();
            o->kind = op[0];
            o->rz = rz != 0;
            const bt t = rz ? bt::resizable : bt::fixed_size;
            if (op == "v") {
                o->v = std::make_unique<vecmem::data::vector_buffer<T>>(static_cast<unsigned>(n), mem(), t);
                cp.setup(*o->v)->wait();
                o->rows = {describe<T>(*o->v)};
            } else {
                o->e = std::make_unique<typename flat::buffer>(static_cast<unsigned>(n), mem(), t);
                cp.setup(*o->e)->wait();
                o->rows = {describe(o->e->template get<0>()), describe(o->e->template get<2>())};
            }
            made(std::move(o), caps({n}));
        } else if (op == "j" || op == "f") {
            int rz;
            is >> rz;
            const std::vector<std::size_t> n = numbers(is);
            auto o = std::make_unique<object>();
            o->kind = op[0];
            o->rz = rz != 0;
            const bt t = rz ? bt::resizable : bt::fixed_size;
            if (op == "j") {
                o->j = std::make_unique<vecmem::data::jagged_vector_buffer<T>>(n, mem(), nullptr, t);
                cp.setup(*o->j)->wait();
                for (std::size_t i = 0; i < n.size(); ++i) {
                    o->rows.push_back(describe(o->j->host_ptr()[i]));
                }
            } else {
                o->f = std::make_unique<typename deep::buffer>(n, mem(), nullptr, t);
                cp.setup(*o->f)->wait();
                for (std::size_t i = 0; i < n.size(); ++i) {
                    o->rows.push_back(describe(o->f->template get<0>().host_ptr()[i]));
                }
                o->rows.push_back(describe(o->f->template get<1>()));
                for (std::size_t i = 0; i < n.size(); ++i) {
                    o->rows.push_back(describe(o->f->template get<2>().host_ptr()[i]));
                }
            }
            made(std::move(o), caps(n));
        } else if (op == "m") {
            int rz;
            std::size_t rows;
            is >> rz >> rows;
            const std::vector<std::size_t> n = numbers(is);
            auto o = std::make_unique<object>();
            o->kind = 'j';
            o->rz = rz != 0;
            const std::size_t inner[] = {65536, 65535, 255, 32768};
            o->idx = {0, rows - 1};
            for (std::size_t i = 0; o->idx.size() < n.size(); ++i) {
                o->idx.push_back(inner[i]);
            }
            std::sort(o->idx.begin(), o->idx.end());
            std::vector<std::size_t> all(rows, 1);
            for (std::size_t i = 0; i < n.size(); ++i) {
                all[o->idx[i]] = n[i];
            }
            o->j = std::make_unique<vecmem::data::jagged_vector_buffer<T>>(all, mem(), nullptr, rz ? bt::resizable : bt::fixed_size);
            cp.setup(*o->j)->wait();
            for (std::size_t i : o->idx) {
                o->rows.push_back(describe(o->j->host_ptr()[i]));
            }
            made(std::move(o), caps(n));
        } else if (op == "fill") {
            std::size_t x, seed;
            is >> x >> seed;
            for (const row& r : get(x)->rows) {
                for (std::size_t p : pos) {
                    if (p < r.capacity) {
                        seed = (seed * 31 + 7) % 251;
                        std::memset(r.ptr + p * r.es, static_cast<int>(seed) + 1, r.es);
                    }
                }
            }
            event("\"op\":\"fill\",\"t\":" + num(static_cast<long long>(x)));
        } else if (op == "sz") {
            std::size_t x, r;
            is >> x >> r;
            const std::size_t n = number(is);
            object& o = *get(x);
            if (r < o.rows.size() && o.rows[r].size != nullptr && n <= o.rows[r].capacity) {
                *o.rows[r].size = static_cast<unsigned>(n);
                event("\"op\":\"sz\",\"t\":" + num(static_cast<long long>(x)) + ",\"r\":" + num(static_cast<long long>(r) + 1) + ",\"n\":" + big(n));
            }
        } else if (op == "ms") {
            std::size_t x;
            int b;
            is >> x >> b;
            object& o = *get(x);
            const std::string thr = guarded([&] {
                switch (o.kind) {
                    case 'v': cp.memset(vecmem::data::vector_view<T>(*o.v), b)->wait(); break;
                    case 'j': cp.memset(vecmem::data::jagged_vector_view<T>(*o.j), b)->wait(); break;
                    case 'e': cp.memset(vecmem::get_data(*o.e), b)->wait(); break;
                    default: cp.memset(vecmem::get_data(*o.f), b)->wait(); break;
                }
            });
            event("\"op\":\"ms\",\"t\":" + num(static_cast<long long>(x)) + ",\"x\":" + num(b) + ",\"thr\":\"" + thr + "\"");
        } else if (op == "copy" || op == "via") {
            std::size_t x, y;
            is >> x >> y;
            object &f = *get(x), &t = *get(y);
            const std::string thr = guarded([&] {
                if (op == "via") {
                    vecmem::jagged_vector<T> host(&mem());
                    cp(vecmem::data::jagged_vector_view<T>(*f.j), host)->wait();
                    auto data = vecmem::get_data(host, &mem());
                    cp(vecmem::data::jagged_vector_view<T>(data), vecmem::data::jagged_vector_view<T>(*t.j))->wait();
                    return;
                }
                switch (f.kind) {
                    case 'v': cp(vecmem::data::vector_view<T>(*f.v), vecmem::data::vector_view<T>(*t.v))->wait(); break;
                    case 'j': cp(vecmem::data::jagged_vector_view<T>(*f.j), vecmem::data::jagged_vector_view<T>(*t.j))->wait(); break;
                    case 'e': cp(typename flat::const_view(vecmem::get_data(*f.e)), vecmem::get_data(*t.e))->wait(); break;
                    default: cp(typename deep::const_view(vecmem::get_data(*f.f)), vecmem::get_data(*t.f))->wait(); break;
                }
            });
            event("\"op\":\"copy\",\"f\":" + num(static_cast<long long>(x)) + ",\"t\":" + num(static_cast<long long>(y)) + ",\"thr\":\"" + thr + "\"");
        } else if (op == "pb" || op == "pop" || op == "ba" || op == "rs" || op == "di") {
            std::size_t x, r, n = 0;
            int v = 0;
            is >> x >> r;
            if (op == "ba" || op == "rs") {
                n = number(is);
            }
            is >> v;
            object& o = *get(x);
            if (r >= o.rows.size()) {
                return;
            }
            const std::size_t s = size_of(o.rows[r]), c = o.rows[r].capacity;
            const bool rz = o.rows[r].size != nullptr;
            if ((op != "di" && !rz) || (op == "pb" && s >= c) || (op == "pop" && s == 0) || (op == "ba" && s + n > c) ||
                (op == "rs" && (n > c || (n > s && n - s > 1000)))) {
                return;
            }
            std::string res = "[]";
            with_row(o, r, [&](auto view) {
                using U = std::remove_pointer_t<decltype(view.ptr())>;
                vecmem::device_vector<U> d(view);
                const vecmem::device_vector<const U> cd(vecmem::data::vector_view<const U>{view});
                if (op == "pb") {
                    res = "[" + big(d.push_back(value<U>(v))) + "]";
                } else if (op == "pop") {
                    res = "[" + big(d.pop_back()) + "]";
                } else if (op == "ba") {
                    res = "[" + big(d.bulk_append(static_cast<unsigned>(n), value<U>(v))) + "]";
                } else if (op == "rs") {
                    d.resize(static_cast<unsigned>(n), value<U>(v));
                } else {
                    res = "[" + big(d.size()) + "," + big(d.capacity()) + "," + big(static_cast<std::size_t>(d.end() - d.begin())) + "," +
                          big(static_cast<std::size_t>(cd.end() - cd.begin())) + "," + big(static_cast<std::size_t>(cd.cend() - cd.cbegin())) + "]";
                    // Each element that is looked at, in every possible way.
                    bool same = d.empty() == (s == 0);
                    for (std::size_t p : pos) {
                        if (p < s) {
                            const unsigned q = static_cast<unsigned>(p);
                            const auto back = static_cast<std::ptrdiff_t>(s - 1 - p);
                            const U* a = reinterpret_cast<const U*>(o.rows[r].ptr) + p;
                            same = same && &d[q] == a && &d.at(q) == a && &cd[q] == a && &cd.at(q) == a && &*(d.begin() + static_cast<std::ptrdiff_t>(p)) == a &&
                                   &*(d.rbegin() + back) == a && &cd.rbegin()[back] == a && &*(d.rend() - static_cast<std::ptrdiff_t>(p) - 1) == a &&
                                   d.rbegin() + static_cast<std::ptrdiff_t>(s) == d.rend();
                        }
                    }
                    if (s > 0) {
                        const U* first = reinterpret_cast<const U*>(o.rows[r].ptr);
                        same = same && &d.front() == first && &d.back() == first + (s - 1) && &cd.back() == first + (s - 1) && &*d.rbegin() == first + (s - 1);
                    }
                    // The rows of a jagged vector, likewise.
                    if constexpr (std::is_same_v<U, T>) {
                        if (o.kind == 'j') {
                            vecmem::jagged_device_vector<T> all(*o.j);
                            const std::size_t i = o.at(r), m = o.j->size();
                            const auto there = [&](const auto& row) { return reinterpret_cast<const char*>(row.data()) == o.rows[r].ptr && row.size() == s; };
                            same = same && all.size() == m && all.begin() + static_cast<std::ptrdiff_t>(m) == all.end() && there(all[i]) && there(all.at(i)) &&
                                   there(*(all.begin() + static_cast<std::ptrdiff_t>(i))) && there(*(all.rbegin() + static_cast<std::ptrdiff_t>(m - 1 - i)));
                        }
                    }
                    res.insert(res.size() - 1, same ? ",[0,1]" : ",[0,0]");
                }
            });
            event("\"op\":\"" + op + "\",\"t\":" + num(static_cast<long long>(x)) + ",\"r\":" + num(static_cast<long long>(r) + 1) + ",\"n\":" + big(n) + ",\"x\":" + num(v) +
                  ",\"res\":" + res);
        } else if (op == "dpb") {
            std::size_t x;
            is >> x;
            object& o = *get(x);
            if (o.kind != 'e' || !o.rz || size_of(o.rows[0]) >= o.rows[0].capacity) {
                return;
            }
            typename flat::device d(vecmem::get_data(*o.e));
            const std::size_t before = d.size();
            const std::size_t at = d.push_back_default();
            const std::size_t after = d.size(), room = d.capacity();
            const bool same = reinterpret_cast<char*>(&d.at(static_cast<unsigned>(at)).template get<0>()) == o.rows[0].ptr + at * sizeof(T) &&
                              reinterpret_cast<char*>(&d[static_cast<unsigned>(at)].template get<2>()) == o.rows[1].ptr + at;
            event("\"op\":\"dpb\",\"t\":" + num(static_cast<long long>(x)) + ",\"res\":[" + big(before) + "," + big(at) + "," + big(after) + "," + big(room) + ",[0," + num(same) + "]]");
        }
    }
};
}  // namespace

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    FILE* of = std::fopen(argv[2], "w");
    out_fd() = fileno(of);
    install_handlers(static_cast<unsigned>(std::atoi(argv[3])));
    std::unique_ptr<any_world> w;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            w.reset();
            std::string t;
            is >> t;
            std::vector<std::size_t> p = numbers(is);
            std::sort(p.begin(), p.end());
            p.erase(std::unique(p.begin(), p.end()), p.end());
            if (t == "c") {
                w = std::make_unique<world<signed char>>(p);
            } else if (t == "i") {
                w = std::make_unique<world<int>>(p);
            } else if (t == "B") {
                w = std::make_unique<world<block>>(p);
            } else {
                w = std::make_unique<world<double>>(p);
            }
        } else if (w) {
            w->operate(op, is);
        }
    }
    w.reset();
    emit("{\"e\":\"end\"}");
    flush();
    _exit(0);
}
