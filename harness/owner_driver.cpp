// Conformance driver for typed ownership: allocator, unique pointers, array.
// Lines ("type" is s: 4 bytes, m: 24 bytes, w: 48 bytes aligned to 16,
// v: 64 bytes aligned to 64, b: 1 byte, o: 12 bytes aligned to 4, h: 2 bytes):
//   R                          new world
//   bytes h size align | space h type n | new h type n     (allocator)
//   vspace h type k            allocate_object of 2^64/size + k objects
//   fwd h                      new_object with arguments to be forwarded
//   free h | null              (allocator)
//   obj h type n | arr h type n | alloc h type n           (unique pointers)
//   one h type | copy h type v | rows h n      (unique_alloc_ptr)
//   varr / valloc h type k     overflowing counts
//   array h type n | arrayn h k                            (vecmem::array)
//   move h h2 | swap h h2 | reset h | release h | adopt h | die h
//   read h | write h i v
//   E k...: upstream calls that fail, T k: the constructor that throws,
//   counted from the start of the next call
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>

#include "trace.hpp"
#include "vecmem/containers/array.hpp"
#include "vecmem/memory/allocator.hpp"
#include "vecmem/memory/unique_ptr.hpp"
using namespace vp;

namespace {
int g_throw = 0;       // countdown
long g_balance = 0;    // objects that are not in memory of the resource
struct thrown {};

int g_events = 0;      // of the current call
void made(const void* p, int v) {
    if (++g_events > 20000) {
        emit("{\"e\":\"runaway\"}");
        flush();
        _exit(0);
    }
    const long long a = reg().pos(p);
    if (g_throw > 0 && --g_throw == 0) {
        if (a >= 0) {
            emit("{\"e\":\"cx\",\"a\":" + num(a) + "}");
        }
        throw thrown();
    }
    if (a >= 0) {
        emit("{\"e\":\"ct\",\"a\":" + num(a) + ",\"v\":" + num(v) + "}");
    } else {
        ++g_balance;
    }
}
void lost(const void* p) {
    const long long a = reg().pos(p);
    if (a >= 0) {
        emit("{\"e\":\"dt\",\"a\":" + num(a) + "}");
    } else {
        --g_balance;
    }
}

template <int SIZE, int ALIGN>
struct alignas(ALIGN) counted {
    union {
        int v;
        char c[SIZE];
        std::conditional_t<(SIZE < 4), signed char, int> s;
    };
    counted() { made(this, 7); s = 7; }
    counted(int a, int b) { made(this, static_cast<signed char>(a + b)); s = static_cast<signed char>(a + b); }
    counted(const counted& o) { made(this, o.s); s = o.s; }
    counted& operator=(const counted& o) = default;
    ~counted() { lost(this); }
    int get() const { return s; }
    void set(int x) { s = static_cast<signed char>(x); }
};
template <int SIZE, int ALIGN>
struct alignas(ALIGN) plain {
    signed char c[SIZE];
    int get() const { return c[0]; }
    void set(int x) { c[0] = static_cast<signed char>(x); }
};
// Small types cannot hold an int in the union.
struct tiny {
    signed char s;
    tiny() { made(this, 7); s = 7; }
    tiny(int a, int b) { made(this, static_cast<signed char>(a + b)); s = static_cast<signed char>(a + b); }
    tiny(const tiny& o) { made(this, o.s); s = o.s; }
    tiny& operator=(const tiny& o) = default;
    ~tiny() { lost(this); }
    int get() const { return s; }
    void set(int x) { s = static_cast<signed char>(x); }
};
struct small2 {
    short s;
    small2() { made(this, 7); s = 7; }
    small2(int a, int b) { made(this, a + b); s = static_cast<short>(a + b); }
    small2(const small2& o) { made(this, o.s); s = o.s; }
    small2& operator=(const small2& o) = default;
    ~small2() { lost(this); }
    int get() const { return s; }
    void set(int x) { s = static_cast<short>(x); }
};
// Takes what it is given by reference, and by move.
struct taker {
    int s;
    taker(int& r, std::unique_ptr<int> p, const int& q) {
        ++r;
        made(this, *p + q);
        s = *p + q;
    }
    ~taker() { lost(this); }
};

class recorder : public vecmem::memory_resource {
    void* do_allocate(std::size_t n, std::size_t al) override {
        long long p = -1;
        const bool fail = faults().fail_now();
        if (!fail && n > 0) {
            p = places().place(n, al);
        }
        const bool bad = fail || (n > 0 && p < 0);
        emit("{\"e\":\"ua\",\"sz\":" + num(cap(n)) + ",\"al\":" + num(cap(al)) +
             ",\"r\":\"" + (bad ? "bad" : "ok") + "\",\"a\":" + num(p) + "}");
        if (bad) {
            throw std::bad_alloc();
        }
        if (n == 0) {
            return nullptr;
        }
        std::memset(reg().base + p, 0x5a, n);
        return reg().base + p;
    }
    void do_deallocate(void* ptr, std::size_t n, std::size_t al) override {
        const long long p = reg().pos(ptr);
        emit("{\"e\":\"ud\",\"sz\":" + num(cap(n)) + ",\"al\":" + num(cap(al)) +
             ",\"a\":" + num(p) + "}");
        if (places().used.erase(p)) {
            std::memset(reg().base + p, 0x33, n < 4096 ? n : 4096);
        }
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override {
        return this == &o;
    }
};

struct handle {
    virtual ~handle() = default;
    virtual const void* at() const = 0;
    virtual std::vector<int> values() const { return {}; }
    virtual bool write(std::size_t, int) { return false; }
    virtual bool move_from(handle&) { return false; }
    virtual bool swap(handle&) { return false; }
    virtual bool reset() { return false; }
    virtual bool release() { return false; }
    virtual bool adopt() { return false; }
    virtual bool by_hand() const { return false; }   // must be freed
    virtual void free() {}
};

vecmem::memory_resource* g_mr = nullptr;

struct bytes_handle : handle {
    void* p;
    std::size_t n, al;
    const void* at() const override { return p; }
    bool by_hand() const override { return true; }
    void free() override { vecmem::allocator(*g_mr).deallocate_bytes(p, n, al); }
};
template <typename T>
struct space_handle : handle {
    T* p;
    std::size_t n;
    const void* at() const override { return p; }
    bool by_hand() const override { return true; }
    void free() override {
        if (n == 1) {
            vecmem::allocator(*g_mr).deallocate_object(p);
        } else {
            vecmem::allocator(*g_mr).deallocate_object(p, n);
        }
    }
};
template <typename T>
struct new_handle : handle {
    T* p;
    const void* at() const override { return p; }
    std::vector<int> values() const override { return {p->s}; }
    bool write(std::size_t i, int v) override {
        if (i > 0) {
            return false;
        }
        p->s = static_cast<decltype(p->s)>(v);
        return true;
    }
    bool by_hand() const override { return true; }
    void free() override { vecmem::allocator(*g_mr).delete_object(p); }
};
// Any of the unique pointers.
template <typename PTR>
struct ptr_handle : handle {
    PTR p;
    std::size_t n = 0;         // readable values
    bool objects = false;
    typename PTR::pointer raw{};
    bool released = false;
    ~ptr_handle() override = default;
    const void* at() const override { return released ? raw : p.get(); }
    std::vector<int> values() const override {
        std::vector<int> r;
        if (at() == nullptr) {
            return r;
        }
        for (std::size_t i = 0; i < n; ++i) {
            if constexpr (std::is_array_v<typename PTR::element_type> || std::is_same_v<typename PTR::pointer, int(*)[2]>) {
            } else if constexpr (std::is_arithmetic_v<typename PTR::element_type>) {
                r.push_back(static_cast<int>((released ? raw : p.get())[i]));
            } else {
                r.push_back((released ? raw : p.get())[i].get());
            }
        }
        return r;
    }
    bool write(std::size_t i, int v) override {
        if (!objects || i >= n || p.get() == nullptr) {
            return false;
        }
        if constexpr (std::is_class_v<typename PTR::element_type>) {
            p.get()[i].set(v);
            return true;
        }
        return false;
    }
    bool move_from(handle& o) override {
        auto* q = dynamic_cast<ptr_handle*>(&o);
        if (q == nullptr || released || q->released) {
            return false;
        }
        p = std::move(q->p);
        n = q->n;
        objects = q->objects;
        q->n = 0;
        return true;
    }
    bool swap(handle& o) override {
        auto* q = dynamic_cast<ptr_handle*>(&o);
        if (q == nullptr || released || q->released) {
            return false;
        }
        std::swap(p, q->p);
        std::swap(n, q->n);
        std::swap(objects, q->objects);
        return true;
    }
    bool reset() override {
        if (released) {
            return false;
        }
        p.reset();
        n = 0;
        return true;
    }
    bool release() override {
        if (released) {
            return false;
        }
        raw = p.release();
        released = true;
        return true;
    }
    bool adopt() override {
        if (!released) {
            return false;
        }
        p.reset(raw);
        released = false;
        return true;
    }
};
template <typename A>
struct array_handle : handle {
    A a;
    template <typename... X>
    explicit array_handle(X&&... x) : a(std::forward<X>(x)...) {}
    const void* at() const override { return a.data(); }
    std::vector<int> values() const override {
        std::vector<int> r;
        for (const auto& x : a) {
            r.push_back(x.get());
        }
        return r;
    }
    bool write(std::size_t i, int v) override {
        if (i >= a.size()) {
            return false;
        }
        a[i].set(v);
        return true;
    }
};

std::map<int, std::unique_ptr<handle>> hs;

std::size_t here() {
    if (buf().size() > (1u << 19)) {
        flush();
    }
    return buf().size();
}
std::string list(const std::vector<int>& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        s += (i ? "," : "") + num(v[i]);
    }
    return s + "]";
}
void call(const std::string& op, int h, int h2, long long n, long long es, long long ea, const std::vector<int>& vals, int vast = 0) {
    g_balance = 0;
    g_events = 0;
    emit("{\"e\":\"call\",\"op\":\"" + op + "\",\"h\":" + num(h) + ",\"h2\":" + num(h2) + ",\"n\":" + num(n) + ",\"es\":" +
         num(es) + ",\"ea\":" + num(ea) + ",\"vals\":" + list(vals) + ",\"vast\":" + num(vast) + "}");
}
// Off-region objects that were made in a call must be gone after it.
template <typename F>
bool perform(F f, int h, long long extra = 0) {
    const char* r = "ok";
    try {
        f();
    } catch (const std::bad_alloc&) {
        r = "bad";
    } catch (const thrown&) {
        r = "throw";
    } catch (...) {
        r = "exc";
    }
    const bool ok = r[0] == 'o';
    g_throw = 0;
    faults() = fault_plan();
    const void* p = ok && hs.count(h) ? hs[h]->at() : nullptr;
    if (g_balance != 0 || extra != 0) {
        r = "unbalanced";
    }
    emit(std::string("{\"e\":\"ret\",\"r\":\"") + r + "\",\"a\":" + num(reg().pos(p)) + "}");
    if (ok) {
        // The addresses of released objects are of no interest.
    }
    return ok;
}

// For every type code, run f with a counted and a plain type.
template <typename F>
void with_type(const std::string& t, F f) {
    switch (t[0]) {
        case 'm': f(static_cast<counted<24, 8>*>(nullptr), static_cast<plain<24, 8>*>(nullptr)); break;
        case 'w': f(static_cast<counted<48, 16>*>(nullptr), static_cast<plain<48, 16>*>(nullptr)); break;
        case 'v': f(static_cast<counted<64, 64>*>(nullptr), static_cast<plain<64, 64>*>(nullptr)); break;
        case 'V': f(static_cast<counted<256, 128>*>(nullptr), static_cast<plain<256, 128>*>(nullptr)); break;
        case 'o': f(static_cast<counted<12, 4>*>(nullptr), static_cast<plain<12, 4>*>(nullptr)); break;
        case 'b': f(static_cast<tiny*>(nullptr), static_cast<plain<1, 1>*>(nullptr)); break;
        case 'h': f(static_cast<small2*>(nullptr), static_cast<plain<2, 2>*>(nullptr)); break;
        default: f(static_cast<counted<4, 4>*>(nullptr), static_cast<plain<4, 4>*>(nullptr));
    }
}
template <typename P>
using pointee = std::remove_pointer_t<P>;

void finish() {
    for (auto& x : hs) {
        handle& h = *x.second;
        if (h.by_hand()) {
            call("free", x.first, 0, 0, 1, 1, {});
            perform([&] { h.free(); }, -1);
        } else {
            h.adopt();
            call("die", x.first, 0, 0, 1, 1, {});
            perform([&] { x.second.reset(); }, -1);
        }
    }
    hs.clear();
    emit("{\"e\":\"D\"}");
}
}  // namespace

int main(int argc, char** argv) {
    if (argc < 3) {
        return 3;
    }
    std::ifstream in(argv[1]);
    FILE* f = std::fopen(argv[2], "w");
    out_fd() = fileno(f);
    install_handlers(argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 300);
    recorder mr;
    g_mr = &mr;
    bool first = true;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op, t;
        int h = 0, h2 = 0;
        long long n = 0;
        is >> op;
        vecmem::allocator al(mr);
        if (op == "R") {
            if (!first) {
                finish();
            }
            first = false;
            int pol = 0, seed = 1;
            is >> pol >> seed;
            reset_world(pol, static_cast<std::uint64_t>(seed));
            emit("{\"e\":\"R\"}");
            continue;
        }
        if (op == "E") {
            int k;
            while (is >> k) {
                faults().at.push_back(k);
            }
            continue;
        }
        if (op == "T") {
            is >> g_throw;
            continue;
        }
        if (op == "null") {
            call(op, -1, 0, 0, 1, 1, {});
            perform([&] {
                al.deallocate_bytes(nullptr, 16);
                al.deallocate_bytes(nullptr, 0, 64);
                al.deallocate_object(static_cast<int*>(nullptr), 3);
                al.deallocate_object(static_cast<plain<24, 8>*>(nullptr));
                al.delete_object(static_cast<counted<24, 8>*>(nullptr));
                al.delete_object(static_cast<tiny*>(nullptr));
            }, -1);
            continue;
        }
        is >> h;
        const bool has = hs.count(h) > 0;
        static const std::string creators = " bytes space new fwd vspace obj arr alloc one copy rows varr valloc array arrayn ";
        if (creators.find(" " + op + " ") != std::string::npos) {
            if (has) {
                continue;
            }
            if (op == "bytes") {
                long long a = 1;
                is >> n >> a;
                call("bytes", h, 0, n, 1, a ? a : 16, {});
                perform([&] {
                    auto x = std::make_unique<bytes_handle>();
                    x->n = static_cast<std::size_t>(n);
                    x->al = a ? static_cast<std::size_t>(a) : 16;
                    x->p = a ? al.allocate_bytes(x->n, x->al) : al.allocate_bytes(x->n);
                    hs[h] = std::move(x);
                }, h);
            } else if (op == "fwd") {
                int r = 5;
                call("new", h, 0, 1, 4, 4, {42});
                long long bad = 0;
                const bool throws = g_throw == 1 || !faults().at.empty();
                try {
                    perform([&] {
                        auto p = std::make_unique<int>(40);
                        const int q = 2;
                        auto x = std::make_unique<new_handle<taker>>();
                        x->p = al.new_object<taker>(r, std::move(p), q);
                        hs[h] = std::move(x);
                        bad = p != nullptr;
                    }, h);
                } catch (...) {
                }
                if (!throws && (r != 6 || bad)) {
                    emit("{\"e\":\"notforwarded\"}");
                }
            } else if (op == "rows") {
                is >> n;
                call("alloc", h, 0, n, 8, 4, {});
                perform([&] {
                    auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<int[][2]>>>();
                    x->p = vecmem::make_unique_alloc<int[][2]>(mr, static_cast<std::size_t>(n));
                    hs[h] = std::move(x);
                }, h);
            } else if (op == "arrayn") {
                is >> n;
                auto go = [&](auto c) {
                    constexpr std::size_t N = decltype(c)::value;
                    using T = counted<24, 8>;
                    call("arr", h, 0, N, sizeof(T), alignof(T), std::vector<int>(N, 7));
                    perform([&] { hs[h] = std::make_unique<array_handle<vecmem::array<T, N>>>(mr); }, h);
                };
                switch (n) {
                    case 0: go(std::integral_constant<std::size_t, 0>()); break;
                    case 1: go(std::integral_constant<std::size_t, 1>()); break;
                    case 2: go(std::integral_constant<std::size_t, 2>()); break;
                    default: go(std::integral_constant<std::size_t, 9>());
                }
            } else {
                is >> t >> n;
                if (t.empty()) {
                    continue;
                }
                with_type(t, [&](auto* c, auto* q) {
                    using C = pointee<decltype(c)>;
                    using P = pointee<decltype(q)>;
                    const auto un = static_cast<std::size_t>(n);
                    if (op == "space") {
                        call("space", h, 0, n, sizeof(C), alignof(C), {});
                        perform([&] {
                            auto x = std::make_unique<space_handle<C>>();
                            x->n = un;
                            x->p = n == 1 ? al.allocate_object<C>() : al.allocate_object<C>(un);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "vspace" || op == "varr" || op == "valloc") {
                        // n bytes more than fit in the size type
                        const std::size_t many = static_cast<std::size_t>(-1) / sizeof(C) + 1 + un;
                        const bool over = many > static_cast<std::size_t>(-1) / sizeof(C) && sizeof(C) > 1;
                        if (!over) {
                            return;
                        }
                        call(op == "vspace" ? "space" : op == "varr" ? "arr" : "alloc", h, 0, 0, sizeof(C), alignof(C), {}, 1);
                        perform([&] {
                            if (op == "vspace") {
                                auto x = std::make_unique<space_handle<C>>();
                                x->n = many;
                                x->p = al.allocate_object<C>(many);
                                hs[h] = std::move(x);
                            } else if (op == "varr") {
                                auto x = std::make_unique<ptr_handle<vecmem::unique_obj_ptr<C[]>>>();
                                x->p = vecmem::make_unique_obj<C[]>(mr, many);
                                hs[h] = std::move(x);
                            } else {
                                auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<P[]>>>();
                                x->p = vecmem::make_unique_alloc<P[]>(mr, many);
                                hs[h] = std::move(x);
                            }
                        }, h);
                    } else if (op == "new") {
                        const bool dflt = n % 2;
                        call("new", h, 0, 1, sizeof(C), alignof(C), {dflt ? 7 : 12});
                        perform([&] {
                            auto x = std::make_unique<new_handle<C>>();
                            x->p = dflt ? al.new_object<C>() : al.new_object<C>(10, 2);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "obj") {
                        const bool dflt = n % 2;
                        call("obj", h, 0, 1, sizeof(C), alignof(C), {dflt ? 7 : 21});
                        perform([&] {
                            auto x = std::make_unique<ptr_handle<vecmem::unique_obj_ptr<C>>>();
                            x->n = 1;
                            x->objects = true;
                            x->p = dflt ? vecmem::make_unique_obj<C>(mr) : vecmem::make_unique_obj<C>(mr, 20, 1);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "arr") {
                        call("arr", h, 0, n, sizeof(C), alignof(C), std::vector<int>(un, 7));
                        perform([&] {
                            auto x = std::make_unique<ptr_handle<vecmem::unique_obj_ptr<C[]>>>();
                            x->n = un;
                            x->objects = true;
                            x->p = vecmem::make_unique_obj<C[]>(mr, un);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "array") {
                        call("arr", h, 0, n, sizeof(C), alignof(C), std::vector<int>(un, 7));
                        perform([&] { hs[h] = std::make_unique<array_handle<vecmem::array<C>>>(mr, un); }, h);
                    } else if (op == "alloc") {
                        call("alloc", h, 0, n, sizeof(P), alignof(P), {});
                        perform([&] {
                            auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<P[]>>>();
                            x->p = vecmem::make_unique_alloc<P[]>(mr, un);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "one") {
                        call("alloc", h, 0, 1, sizeof(P), alignof(P), {});
                        perform([&] {
                            auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<P>>>();
                            x->p = vecmem::make_unique_alloc<P>(mr);
                            hs[h] = std::move(x);
                        }, h);
                    } else if (op == "copy") {
                        // one value, or an array of them, through a function
                        static P from[5];
                        const bool many = n % 2;
                        std::vector<int> vals;
                        for (int i = 0; i < (many ? 5 : 1); ++i) {
                            std::memset(&from[i], 0x21 + i, sizeof(P));
                            from[i].set(static_cast<int>(n % 50) + i);
                            vals.push_back(from[i].get());
                        }
                        std::size_t copied = 0;
                        const void *to = nullptr, *src = nullptr;
                        auto fn = [&](void* d, const void* s, std::size_t sz) {
                            if (g_throw > 0) {
                                g_throw = 0;
                                emit("{\"e\":\"cx\",\"a\":" + num(reg().pos(d)) + "}");
                                throw thrown();
                            }
                            copied += sz;
                            to = d;
                            src = s;
                            std::memcpy(d, s, sz);
                        };
                        auto wr = [&] {
                            if (to != nullptr && (copied != sizeof(P) * vals.size() || src != from || hs.at(h)->at() != to)) {
                                emit("{\"e\":\"badcopy\"}");
                            }
                        };
                        call("copy", h, 0, static_cast<long long>(vals.size()), sizeof(P), alignof(P), vals);
                        if (many) {
                            if (perform([&] {
                                auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<P[]>>>();
                                x->n = 5;
                                x->p = vecmem::make_unique_alloc<P[]>(mr, 5, from, fn);
                                hs[h] = std::move(x);
                            }, h)) {
                                wr();
                            }
                        } else {
                            if (perform([&] {
                                auto x = std::make_unique<ptr_handle<vecmem::unique_alloc_ptr<P>>>();
                                x->n = 1;
                                x->p = vecmem::make_unique_alloc<P>(mr, from, fn);
                                hs[h] = std::move(x);
                            }, h)) {
                                wr();
                            }
                        }
                    }
                });
            }
            continue;
        }
        if (!has) {
            continue;
        }
        handle& x = *hs[h];
        if (op == "move" || op == "swap") {
            is >> h2;
            if (!hs.count(h2) || h == h2) {
                continue;
            }
            // Only between pointers of the same kind.
            handle& y = *hs[h2];
            if (typeid(x) != typeid(y) || x.by_hand()) {
                continue;
            }
            bool done = false;
            const std::size_t mark = here();
            call(op, h, h2, 0, 1, 1, {});
            perform([&] { done = op == "move" ? x.move_from(y) : x.swap(y); }, -1);
            if (!done) {
                buf().resize(mark);      // it was not called
            }
        } else if (op == "reset" || op == "release" || op == "adopt") {
            if (x.by_hand()) {
                continue;
            }
            bool done = false;
            const std::size_t mark = here();
            call(op, h, h, 0, 1, 1, {});
            perform([&] { done = op == "reset" ? x.reset() : op == "release" ? x.release() : x.adopt(); }, -1);
            if (!done) {
                buf().resize(mark);
            }
        } else if (op == "free" || op == "die") {
            if (x.by_hand()) {
                call("free", h, 0, 0, 1, 1, {});
                perform([&] { x.free(); }, -1);
            } else {
                x.adopt();
                call("die", h, 0, 0, 1, 1, {});
                perform([&] { hs[h].reset(); }, -1);
            }
            hs.erase(h);
        } else if (op == "read") {
            emit("{\"e\":\"rd\",\"h\":" + num(h) + ",\"a\":" + num(reg().pos(x.at())) + ",\"vals\":" + list(x.values()) + "}");
        } else if (op == "write") {
            std::size_t i = 0;
            int v = 0;
            is >> i >> v;
            if (x.write(i, v)) {
                emit("{\"e\":\"w\",\"h\":" + num(h) + ",\"i\":" + num(static_cast<long long>(i)) + ",\"v\":" + num(v) + "}");
            }
        }
    }
    if (!first) {
        finish();
    }
    emit("{\"e\":\"end\"}");
    flush();
    _exit(0);
}
