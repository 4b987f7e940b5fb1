// Element types of the container drivers.  Objects in the shared region
// report their life to the current log; others only have to be balanced.
#pragma once
#include <vector>

#include "trace.hpp"

namespace vp {
struct life {
    char kind;          // c: constructed, d: destroyed, a: assigned to
    const void* at;
    int v;
};
inline std::vector<life>& lives() {
    static std::vector<life> l;
    return l;
}
inline long& balance() {
    static long b = 0;
    return b;
}
struct thrown {};
inline int& throw_at() {      // countdown to a constructor that throws
    static int t = 0;
    return t;
}
inline void note(char kind, const void* p, int v) {
    if (kind == 'c' && throw_at() > 0 && --throw_at() == 0) {
        throw thrown();
    }
    if (reg().pos(p) >= 0) {
        lives().push_back({kind, p, v});
        if (lives().size() > 100000) {
            emit("{\"e\":\"runaway\"}");
            flush();
            _exit(0);
        }
    } else if (kind == 'c') {
        ++balance();
    } else if (kind == 'd') {
        --balance();
    }
}

constexpr int kDefault = 7;      // value of a default constructed element
constexpr int kMoved = -55;      // left behind in a moved-from element
constexpr int kDead = -77;       // left behind by a destructor

template <int SIZE, int ALIGN>
struct alignas(ALIGN) counted {
    static constexpr bool is_counted = true;
    int v;
    char fill[SIZE - sizeof(int)];
    counted() : v(kDefault) { note('c', this, v); }
    counted(int a) : v(a) { note('c', this, v); }
    counted(int a, int b) : v(a + b) { note('c', this, v); }
    counted(const counted& o) : v(o.v) { note('c', this, v); }
    counted(counted&& o) : v(o.v) {
        note('c', this, v);
        o.v = kMoved;
    }
    counted& operator=(const counted& o) {
        v = o.v;
        note('a', this, v);
        return *this;
    }
    counted& operator=(counted&& o) {
        const int x = o.v;
        if (&o != this) {
            o.v = kMoved;
        }
        v = x;
        note('a', this, v);
        return *this;
    }
    ~counted() {
        note('d', this, v);
        v = kDead;
    }
    int get() const { return v; }
    void set(int x) { v = x; }
    bool operator==(const counted& o) const { return v == o.v; }
    bool operator!=(const counted& o) const { return v != o.v; }
    bool operator<(const counted& o) const { return v < o.v; }
};
template <>
struct counted<4, 4> {
    static constexpr bool is_counted = true;
    int v;
    counted() : v(kDefault) { note('c', this, v); }
    counted(int a) : v(a) { note('c', this, v); }
    counted(int a, int b) : v(a + b) { note('c', this, v); }
    counted(const counted& o) : v(o.v) { note('c', this, v); }
    counted(counted&& o) : v(o.v) {
        note('c', this, v);
        o.v = kMoved;
    }
    counted& operator=(const counted& o) {
        v = o.v;
        note('a', this, v);
        return *this;
    }
    counted& operator=(counted&& o) {
        const int x = o.v;
        if (&o != this) {
            o.v = kMoved;
        }
        v = x;
        note('a', this, v);
        return *this;
    }
    ~counted() {
        note('d', this, v);
        v = kDead;
    }
    int get() const { return v; }
    void set(int x) { v = x; }
    bool operator==(const counted& o) const { return v == o.v; }
    bool operator!=(const counted& o) const { return v != o.v; }
    bool operator<(const counted& o) const { return v < o.v; }
};
// Trivial elements.
template <int SIZE, int ALIGN>
struct alignas(ALIGN) plain {
    int v;
    char fill[SIZE - sizeof(int)];
    int get() const { return v; }
    void set(int x) { v = x; }
    bool operator==(const plain& o) const { return v == o.v; }
    bool operator!=(const plain& o) const { return v != o.v; }
    bool operator<(const plain& o) const { return v < o.v; }
};
// Elements that know where they are: nothing happens when they are destroyed,
// but they must not be moved byte by byte.
constexpr int kAstray = -88;      // read from an element that was
struct placed {
    const placed* at;
    int v;
    placed() : at(this), v(0) {}
    placed(const placed& o) : at(this), v(o.get()) {}
    placed& operator=(const placed& o) {
        v = at == this ? o.get() : kAstray;
        return *this;
    }
    ~placed() = default;
    int get() const { return at == this ? v : kAstray; }
    void set(int x) { v = x; }
    bool operator==(const placed& o) const { return get() == o.get(); }
    bool operator!=(const placed& o) const { return get() != o.get(); }
    bool operator<(const placed& o) const { return get() < o.get(); }
};

template <typename T, typename = void>
struct is_counted_t : std::false_type {};
template <typename T>
struct is_counted_t<T, std::void_t<decltype(T::is_counted)>> : std::true_type {};

// Objects that begin to exist with the memory that they are in.
template <typename T>
constexpr bool is_implicit = !is_counted_t<T>::value && !std::is_same_v<T, placed>;

template <typename T>
inline int get(const T& x) {
    if constexpr (std::is_arithmetic_v<T>) {
        return static_cast<int>(x);
    } else {
        return x.get();
    }
}
template <typename T>
inline T make(int v) {
    if constexpr (std::is_arithmetic_v<T>) {
        return static_cast<T>(v);
    } else if constexpr (is_counted_t<T>::value) {
        return T(v);
    } else {
        T x{};
        x.v = v;
        return x;
    }
}
template <typename T>
inline void set(T& x, int v) {
    if constexpr (std::is_arithmetic_v<T>) {
        x = static_cast<T>(v);
    } else {
        x.set(v);
    }
}
template <typename T>
inline int default_of() {
    return is_counted_t<T>::value ? kDefault : 0;
}
inline std::string list(const std::vector<int>& v) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size(); ++i) {
        s += (i ? "," : "") + num(v[i]);
    }
    return s + "]";
}
// Different readings of the same thing.
struct readings {
    std::vector<std::vector<int>> all;
    void add(std::vector<int> x) {
        for (const auto& y : all) {
            if (x == y) {
                return;
            }
        }
        all.push_back(std::move(x));
    }
    std::string str() const {
        std::string s = "[";
        for (std::size_t i = 0; i < all.size(); ++i) {
            s += (i ? "," : "") + list(all[i]);
        }
        return s + "]";
    }
};
// Every way of reading a vector-like container; C may be const.
template <typename C>
inline std::vector<int> forward(C& c) {
    std::vector<int> r;
    for (auto i = c.begin(); i != c.end(); ++i) {
        r.push_back(get(*i));
    }
    return r;
}
template <typename C>
inline void read_all(C& c, readings& rd, int& un) {
    const std::size_t n = c.size();
    std::vector<int> a, b, d, e, f;
    rd.add(forward(c));
    for (std::size_t i = 0; i < n && i < 1000; ++i) {
        a.push_back(get(c[static_cast<unsigned>(i)]));
        b.push_back(get(c.at(static_cast<unsigned>(i))));
        d.push_back(get(c.data()[i]));
        e.push_back(get(*(c.rbegin() + static_cast<long>(n - 1 - i))));
        f.push_back(get(c.end()[static_cast<long>(i) - static_cast<long>(n)]));
    }
    for (const auto* v : {&a, &b, &d, &e, &f}) {
        rd.add(*v);
    }
    std::vector<int> g;
    for (auto i = c.rbegin(); i != c.rend(); ++i) {
        g.insert(g.begin(), get(*i));
    }
    rd.add(g);
    g.clear();
    for (auto i = c.cbegin(); i != c.cend(); ++i) {
        g.push_back(get(*i));
    }
    rd.add(g);
    g.clear();
    for (auto i = c.crbegin(); i != c.crend(); ++i) {
        g.insert(g.begin(), get(*i));
    }
    rd.add(g);
    if (n > 0) {
        un += get(c.front()) != a.front();
        un += get(c.back()) != a.back();
        un += &c.front() != c.data();
        un += &c.back() != c.data() + (n - 1);
    }
    un += c.empty() != (n == 0);
    un += static_cast<std::size_t>(c.end() - c.begin()) != n;
    un += c.max_size() != c.capacity();
}

// Life events as positions relative to some base; also those elsewhere.
template <typename F>
inline std::string take_lives(F slot) {
    std::string s = "[";
    bool first = true;
    for (const life& l : lives()) {
        s += std::string(first ? "" : ",") + "[\"" + l.kind + "\"," + slot(l.at) + "," + num(l.v) + "]";
        first = false;
    }
    lives().clear();
    return s + "]";
}
// A piece of memory surrounded by canaries.
struct guarded {
    char* p = nullptr;
    std::size_t n = 0;
    static constexpr std::size_t margin = 192;
    static char*& next() {
        static char* x = nullptr;
        return x;
    }
    static void restart() { next() = reg().base + 4096; }
    guarded() = default;
    guarded(std::size_t bytes, std::size_t align) : n(bytes) {
        std::uintptr_t a = reinterpret_cast<std::uintptr_t>(next()) + margin;
        a = (a + align - 1) / align * align;
        // No better aligned than asked for.
        if (a % (2 * align) == 0) {
            a += align;
        }
        p = reinterpret_cast<char*>(a);
        next() = p + n + margin;
        std::memset(p - margin, 0xA5, n + 2 * margin);
    }
    bool intact() const {
        for (std::size_t i = 1; i <= margin; ++i) {
            if (static_cast<unsigned char>(p[-static_cast<long>(i)]) != 0xA5 || static_cast<unsigned char>(p[n + i - 1]) != 0xA5) {
                return false;
            }
        }
        return true;
    }
};
}  // namespace vp
