// Conformance driver for the synchronized memory resource: threads whose
// calls and whose stay inside of the upstream resource are scheduled by the
// script.  Lines:
//   R <nthreads> <how>     a new resource, idle threads; how: 0 constructed over its upstream,
//                          1/2 copied/moved, 3/4 assigned/move-assigned from another,
//                          5/6 the same, to itself
//   c <t> a <sz> <al>      thread t calls allocate
//   c <t> d <k>            thread t deallocates its k-th block
//   o <t> ok|bad           the thread inside upstream (should be t) leaves it
//   F <seed> <n>           free running: each thread makes n random calls
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#include "trace.hpp"
#include "vecmem/memory/synchronized_memory_resource.hpp"
using namespace vp;
using clk = std::chrono::steady_clock;

namespace {
std::mutex g_m;                 // protects everything below, and the trace
std::condition_variable g_cv;
thread_local int t_id = -1;
int g_inside = 0;               // threads inside upstream
int g_pending = 0;              // calls that have not returned
int g_leave[16];                // 0: stay, 1: leave, 2: leave with bad_alloc
bool g_free = false;
bool g_in[16];
rng g_rng(1);

struct gate : vecmem::memory_resource {
    int id;
    explicit gate(int i = 0) : id(i) {}
    // Takes care of one call; returns whether it is to fail.
    bool pass(const std::string& what, const char* k, long long sz, long long al, long long p) {
        std::unique_lock<std::mutex> l(g_m);
        emit("{\"e\":\"in\",\"u\":" + num(id) + ",\"t\":" + num(t_id) + ",\"k\":\"" + k + "\",\"sz\":" + num(sz) + ",\"al\":" + num(al) + ",\"a\":" + num(p) + "}");
        ++g_inside;
        const int me = t_id < 0 ? 15 : t_id;
        g_in[me] = true;
        g_cv.notify_all();
        bool bad = false;
        if (g_free) {
            const int n = static_cast<int>(g_rng.below(4));
            bad = k[0] == 'a' && g_rng.below(8) == 0;
            l.unlock();
            for (int i = 0; i < n; ++i) {
                std::this_thread::yield();
            }
            if (n == 3) {
                std::this_thread::sleep_for(std::chrono::microseconds(30));
            }
            l.lock();
        } else {
            g_cv.wait(l, [&] { return g_leave[me] != 0; });
            bad = g_leave[me] == 2;
            g_leave[me] = 0;
        }
        --g_inside;
        g_in[me] = false;
        return bad;
    }
    void out(const char* r, long long p) {
        emit("{\"e\":\"out\",\"t\":" + num(t_id) + ",\"r\":\"" + r + "\",\"a\":" + num(p) + "}");
    }
    void* do_allocate(std::size_t sz, std::size_t al) override {
        const bool bad = pass("", "a", cap(sz), cap(al), -1);
        std::lock_guard<std::mutex> l(g_m);
        const long long p = bad ? -1 : places().place(sz, al);
        out(p < 0 ? "bad" : "ok", p);
        if (p < 0) {
            throw std::bad_alloc();
        }
        return reg().base + p;
    }
    void do_deallocate(void* ptr, std::size_t sz, std::size_t al) override {
        pass("", "d", cap(sz), cap(al), reg().pos(ptr));
        std::lock_guard<std::mutex> l(g_m);
        places().used.erase(reg().pos(ptr));
        out("ok", reg().pos(ptr));
    }
    bool do_is_equal(const vecmem::memory_resource& o) const noexcept override { return this == &o; }
};

struct job {
    char op = 0;
    std::size_t sz = 0, al = 0;
    std::size_t k = 0;
};
struct blk {
    void* p;
    std::size_t sz, al;
};
struct worker {
    std::thread th;
    job j;
    bool busy = false, stop = false;
    std::vector<blk> mine;
};
}  // namespace

int main(int, char** argv) {
    std::ifstream in(argv[1]);
    FILE* of = std::fopen(argv[2], "w");
    out_fd() = fileno(of);
    install_handlers(static_cast<unsigned>(std::atoi(argv[3])));
    reg();
    std::vector<std::unique_ptr<worker>> ws;
    std::unique_ptr<gate> up, wrong;
    std::unique_ptr<vecmem::synchronized_memory_resource> mr;
    int scen = 0;

    auto call = [&](worker& w, const job& j) {
        if (j.op == 'a') {
            {
                std::lock_guard<std::mutex> l(g_m);
                emit("{\"e\":\"call\",\"t\":" + num(t_id) + ",\"k\":\"a\",\"sz\":" + num(cap(j.sz)) + ",\"al\":" + num(cap(j.al)) + ",\"a\":-1}");
            }
            void* p = nullptr;
            std::string r = "ok";
            try {
                p = mr->allocate(j.sz, j.al);
            } catch (const std::bad_alloc&) {
                r = "bad";
            } catch (...) {
                r = "exc";
            }
            std::lock_guard<std::mutex> l(g_m);
            if (p) {
                w.mine.push_back({p, j.sz, j.al});
            }
            emit("{\"e\":\"ret\",\"t\":" + num(t_id) + ",\"r\":\"" + r + "\",\"a\":" + num(reg().pos(p)) + "}");
        } else {
            blk b = w.mine.at(j.k);
            w.mine.erase(w.mine.begin() + static_cast<long>(j.k));
            {
                std::lock_guard<std::mutex> l(g_m);
                emit("{\"e\":\"call\",\"t\":" + num(t_id) + ",\"k\":\"d\",\"sz\":" + num(cap(b.sz)) + ",\"al\":" + num(cap(b.al)) + ",\"a\":" + num(reg().pos(b.p)) + "}");
            }
            std::string r = "ok";
            try {
                mr->deallocate(b.p, b.sz, b.al);
            } catch (...) {
                r = "exc";
            }
            std::lock_guard<std::mutex> l(g_m);
            emit("{\"e\":\"ret\",\"t\":" + num(t_id) + ",\"r\":\"" + r + "\",\"a\":" + num(reg().pos(b.p)) + "}");
        }
    };
    auto hang = [&]() {
        emit("{\"e\":\"hang\",\"sig\":0}");
        flush();
        _exit(0);
    };
    // Waits until every call has returned, or some thread is inside upstream.
    auto settle = [&](std::unique_lock<std::mutex>& l) {
        if (!g_cv.wait_for(l, std::chrono::seconds(5), [&] { return g_pending == 0 || g_inside > 0; })) {
            hang();
        }
        // Give others the chance to get in where they should not.
        if (g_pending > 1) {
            g_cv.wait_for(l, std::chrono::microseconds(400), [&] { return g_inside > 1; });
        }
    };
    auto finish = [&]() {
        if (!mr) {
            return;
        }
        {
            std::unique_lock<std::mutex> l(g_m);
            while (g_pending > 0) {
                settle(l);
                if (g_pending == 0) {
                    break;
                }
                for (int i = 0; i < 16; ++i) {
                    if (g_in[i]) {
                        g_leave[i] = 1;
                    }
                }
                const int before = g_pending;
                g_cv.notify_all();
                if (!g_cv.wait_for(l, std::chrono::seconds(5), [&] { return g_pending < before; })) {
                    hang();
                }
            }
        }
        for (auto& w : ws) {
            {
                std::lock_guard<std::mutex> l(g_m);
                w->stop = true;
            }
            g_cv.notify_all();
            w->th.join();
        }
        ws.clear();
        mr.reset();
        up.reset();
        wrong.reset();
        emit("{\"e\":\"D\"}");
    };
    auto body = [&](worker* w, int id) {
        t_id = id;
        std::unique_lock<std::mutex> l(g_m);
        while (true) {
            g_cv.wait(l, [&] { return w->busy || w->stop; });
            if (w->stop && !w->busy) {
                return;
            }
            const job j = w->j;
            l.unlock();
            call(*w, j);
            l.lock();
            w->busy = false;
            --g_pending;
            g_cv.notify_all();
        }
    };

    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string op;
        is >> op;
        if (op == "R") {
            finish();
            int n = 0, how = 0;
            is >> n >> how;
            reset_world(3, 1);
            g_free = false;
            g_inside = g_pending = 0;
            for (int i = 0; i < 16; ++i) {
                g_leave[i] = 0;
                g_in[i] = false;
            }
            emit("{\"e\":\"R\",\"s\":" + num(++scen) + ",\"n\":" + num(n) + "}");
            up = std::make_unique<gate>();
            wrong = std::make_unique<gate>(1);
            using sync = vecmem::synchronized_memory_resource;
            mr = std::make_unique<sync>(how == 3 || how == 4 ? *wrong : *up);
            {
                sync other(*up);
                sync& same = *mr;
                switch (how) {
                    case 1: mr = std::make_unique<sync>(other); break;
                    case 2: mr = std::make_unique<sync>(std::move(other)); break;
                    case 3: *mr = other; break;
                    case 4: *mr = std::move(other); break;
                    case 5: *mr = same; break;
                    case 6: *mr = std::move(same); break;
                    default: break;
                }
            }
            for (int i = 0; i < n; ++i) {
                ws.push_back(std::make_unique<worker>());
                worker* w = ws.back().get();
                w->th = std::thread(body, w, i);
            }
        } else if (op == "c") {
            std::size_t t;
            std::string k;
            is >> t >> k;
            std::unique_lock<std::mutex> l(g_m);
            worker& w = *ws.at(t);
            if (w.busy) {
                continue;
            }
            job j;
            j.op = k[0];
            if (k == "a") {
                is >> j.sz >> j.al;
            } else {
                is >> j.k;
                if (j.k >= w.mine.size()) {
                    continue;  // its allocation failed
                }
            }
            w.j = j;
            w.busy = true;
            ++g_pending;
            g_cv.notify_all();
            settle(l);
        } else if (op == "o") {
            int t = 0;
            std::string r;
            is >> t >> r;
            std::unique_lock<std::mutex> l(g_m);
            // Whoever is inside; the script does not know who was let in.
            for (int i = 0; i < 16; ++i) {
                if (g_in[i]) {
                    g_leave[i] = (r == "bad") ? 2 : 1;
                    const int before = g_pending;
                    g_cv.notify_all();
                    if (!g_cv.wait_for(l, std::chrono::seconds(5), [&] { return g_pending < before; })) {
                        hang();
                    }
                    break;
                }
            }
            settle(l);
        } else if (op == "F") {
            std::uint64_t seed = 1;
            int n = 0;
            is >> seed >> n;
            {
                std::lock_guard<std::mutex> l(g_m);
                g_free = true;
                g_rng = rng(seed);
            }
            std::vector<std::thread> th;
            std::vector<std::unique_ptr<worker>> fw;
            for (std::size_t i = 0; i < ws.size(); ++i) {
                fw.push_back(std::make_unique<worker>());
                worker* w = fw.back().get();
                th.emplace_back([&, w, i] {
                    t_id = static_cast<int>(i);
                    rng r(seed * 31 + i);
                    for (int q = 0; q < n; ++q) {
                        job j;
                        if (w->mine.empty() || r.below(2)) {
                            j.op = 'a';
                            j.sz = 1 + r.below(300);
                            j.al = 1u << r.below(8);
                        } else {
                            j.op = 'd';
                            j.k = r.below(w->mine.size());
                        }
                        call(*w, j);
                    }
                });
            }
            for (auto& t : th) {
                t.join();
            }
        }
    }
    finish();
    emit("{\"e\":\"end\"}");
    flush();
    _exit(0);
}
