// Handles and events of the drivers for spec/Cells.tla.
#pragma once
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>

#include "elements.hpp"

namespace vp {
constexpr int kUnspec = 9999999;

struct handle {
    char kind = '?';
    std::size_t n = 0;              // number of cells
    bool resizable = false;
    int deps = 0;
    virtual ~handle() = default;
    // All ways of reading it; the lengths of its rows.
    virtual void read(readings& rd, std::vector<int>& shape, int& un) = 0;
    virtual bool set(std::size_t, int, rng&) { return false; }
    virtual bool fill(int, rng&) { return false; }
    // Checked access: 0: not supported, 1: value, 2: out of range, 3: something else.
    virtual int at(long, int&, rng&) { return 0; }
    virtual bool intact() { return true; }
};
template <typename F>
inline int checked(F f, int& value) {
    try {
        value = f();
        return 1;
    } catch (const std::out_of_range&) {
        return 2;
    } catch (...) {
        return 3;
    }
}

struct cells_world {
    std::vector<std::unique_ptr<handle>> hs;
    rng r{1};
    void begin(std::uint64_t seed) {
        r = rng(seed);
        guarded::restart();
        reset_world(1, seed);
        reg();
        places().top = 1ll << 26;
        lives().clear();
        balance() = 0;
        emit("{\"e\":\"R\"}");
    }
    void drop() {
        if (hs.empty()) {
            return;
        }
        while (!hs.empty()) {
            hs.pop_back();
        }
        // Objects in the region count as well.
        long b = balance();
        for (const life& l : lives()) {
            b += l.kind == 'c' ? 1 : l.kind == 'd' ? -1 : 0;
        }
        emit("{\"e\":\"drop\",\"out\":" + num(static_cast<long long>(places().used.size())) + ",\"bal\":" + num(b + carry) + "}");
        lives().clear();
        balance() = 0;
        carry = 0;
    }
    long carry = 0;
    std::string observations() {
        std::string s = ",\"obs\":[";
        bool ok = true;
        for (std::size_t i = 0; i < hs.size(); ++i) {
            readings rd;
            std::vector<int> shape;
            int un = 0;
            hs[i]->read(rd, shape, un);
            ok = ok && hs[i]->intact();
            s += std::string(i ? "," : "") + "{\"un\":" + num(un) + ",\"sh\":" + list(shape) + ",\"rd\":" + rd.str() + "}";
        }
        // Keep the number of log entries small.
        for (const life& l : lives()) {
            carry += l.kind == 'c' ? 1 : l.kind == 'd' ? -1 : 0;
        }
        lives().clear();
        return s + "],\"g\":" + num(ok);
    }
    void event(const std::string& fields) { emit("{\"e\":\"op\"," + fields + observations() + "}"); }

    void own(std::unique_ptr<handle> h, char kind, const std::vector<int>& x, const std::vector<int>& sh, bool resizable = false) {
        h->kind = kind;
        h->n = x.size();
        h->resizable = resizable;
        hs.push_back(std::move(h));
        readings rd;
        std::vector<int> shape;
        int un = 0;
        hs.back()->read(rd, shape, un);
        std::vector<int> v = x;
        // What the elements are that were not initialized.
        if (!resizable && !rd.all.empty() && rd.all[0].size() == v.size()) {
            for (std::size_t i = 0; i < v.size(); ++i) {
                v[i] = x[i] == kUnspec ? rd.all[0][i] : x[i];
            }
        }
        event("\"op\":\"own\",\"x\":" + list(x) + ",\"v\":" + list(v) + ",\"sh\":" + list(sh) + ",\"rs\":" + num(resizable));
    }
    void sub(std::unique_ptr<handle> h, char kind, std::size_t o, std::size_t off, std::size_t n, bool keep, const std::vector<int>& sh, bool keepz, std::size_t row = 0) {
        h->kind = kind;
        h->n = n;
        h->resizable = keepz && hs[o - 1]->resizable;
        ++hs[o - 1]->deps;
        hs.push_back(std::move(h));
        event("\"op\":\"sub\",\"o\":" + num(static_cast<long long>(o)) + ",\"x\":[" + num(static_cast<long long>(off)) + "," + num(static_cast<long long>(n)) + "," + num(keep) + "," + num(keepz) + "," + num(static_cast<long long>(row)) +
              "],\"sh\":" + list(sh));
    }
    // As above, with a size variable: that of z, or a new one (z = 0).
    void subz(std::unique_ptr<handle> h, char kind, std::size_t o, std::size_t off, std::size_t n, std::size_t z) {
        h->kind = kind;
        h->n = n;
        h->resizable = true;
        ++hs[o - 1]->deps;
        hs.push_back(std::move(h));
        event("\"op\":\"subz\",\"o\":" + num(static_cast<long long>(o)) + ",\"x\":[" + num(static_cast<long long>(off)) + "," + num(static_cast<long long>(n)) + "," + num(static_cast<long long>(z)) + "]");
    }
    void copied(std::unique_ptr<handle> h, char kind, std::size_t o) {
        h->kind = kind;
        h->n = hs[o - 1]->n;
        hs.push_back(std::move(h));
        event("\"op\":\"copy\",\"o\":" + num(static_cast<long long>(o)));
    }
    void two(const std::string& op, std::size_t h, std::size_t o, const std::string& more = "") {
        event("\"op\":\"" + op + "\",\"h\":" + num(static_cast<long long>(h)) + ",\"o\":" + num(static_cast<long long>(o)) + more);
    }
    handle* get(std::size_t i) { return i >= 1 && i <= hs.size() ? hs[i - 1].get() : nullptr; }
    // Operations that are the same for all kinds.
    bool common(const std::string& op, std::istringstream& is) {
        if (op == "set") {
            std::size_t h, i;
            int v;
            if (is >> h >> i >> v) {
                handle* p = get(h);
                if (p != nullptr && i < p->n && p->set(i, v, r)) {
                    event("\"op\":\"set\",\"h\":" + num(static_cast<long long>(h)) + ",\"x\":[" + num(static_cast<long long>(i)) + "," + num(v) + "]");
                }
            }
            return true;
        }
        if (op == "fill") {
            std::size_t h;
            int v;
            if (is >> h >> v) {
                handle* p = get(h);
                if (p != nullptr && p->fill(v, r)) {
                    event("\"op\":\"fill\",\"h\":" + num(static_cast<long long>(h)) + ",\"x\":[" + num(v) + "]");
                }
            }
            return true;
        }
        if (op == "at") {
            std::size_t h;
            long i;
            if (is >> h >> i) {
                handle* p = get(h);
                int v = 0;
                const int how = p != nullptr ? p->at(i, v, r) : 0;
                if (how != 0) {
                    const long n = static_cast<long>(p->n);
                    const long k = i == -1 ? 0 : i == -2 ? (n > 0 ? n - 1 : 0) : i >= n ? n : i;
                    event("\"op\":\"at\",\"h\":" + num(static_cast<long long>(h)) + ",\"x\":[" + num(k) + "],\"thr\":" + num(how - 1) + ",\"r\":" + num(v));
                }
            }
            return true;
        }
        return false;
    }
};
}  // namespace vp
