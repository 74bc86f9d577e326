// Concrete contract oracle for pipeline_stage (C23), pipeline_stage_pool (C24) and interval_event (C22).
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <functional>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <semaphore>
#include <thread>
#include <vector>
#include <xitren/comm/pipeline_stage.hpp>
#include <xitren/comm/pipeline_stage_pool.hpp>
#include <xitren/func/interval_event.hpp>
using namespace xitren;
using namespace std::chrono_literals;

#ifdef VP_SCHED
extern int vp_rate, vp_long;    // sched.cpp
#else
static int vp_rate, vp_long;
#endif
static std::atomic<int> g_preempt{0};    // milliseconds the thread that starts another one loses right after starting it
extern "C" int pthread_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* x)
{
    using fn = int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
    int       r    = real(t, a, f, x);
    if (int ms = g_preempt) usleep(1000 * ms);
    return r;
}

struct quiet {
    static void trace();
    static void debug();
    static void warning();
    static void error();
};

static thread_local Rng t_rng{12345};
static std::atomic<int> g_slow{0};    // how often a copy loses the processor, in percent
static void             maybe_yield()
{
    if (t_rng.chance(g_slow)) {
        if (t_rng.chance(50))
            std::this_thread::yield();
        else
            usleep(t_rng.below(200));
    }
}
struct slow {    // an item that is copied in several steps
    long producer{}, number{}, check{};
    slow() = default;
    slow(long p, long n) : producer{p}, number{n}, check{~(p * 1000003 + n)} {}
    slow(slow const& o) { take(o); }
    slow& operator=(slow const& o)
    {
        take(o);
        return *this;
    }
    bool good() const { return check == ~(producer * 1000003 + number); }

private:
    void take(slow const& o)
    {
        producer = o.producer;
        maybe_yield();
        number = o.number;
        maybe_yield();
        check = o.check;
    }
};

struct Seen {
    int  worker;
    slow item;
};

// room in the queue with the fewest outstanding items, where the members are named as they are today
template <class P>
static bool room(P& p, std::size_t n)
{
    if constexpr (requires { p.queue_.tail - p.tail_; }) {
        return p.queue_.tail - p.tail_ < n;
    } else if constexpr (requires { p.pool_[0].tail - p.pool_[0].head; }) {
        for (auto& q : p.pool_)
            if (q.tail - q.head < n) return true;
        return false;
    } else {
        return false;
    }
}

template <class Make>
static void stream(Rng& r, unsigned workers, unsigned buffer, bool has_room, Make make)
{
    bool const     many      = r.chance(50);
    unsigned const producers = many ? 1 + (unsigned)r.below(3) : 1;
    // one producer may fill every queue of a pool, several may choose the same one
    unsigned const           credit = producers == 1 ? workers * buffer : buffer;
    unsigned const           count  = (unsigned)r.below(60) + 1;
    int const                slowcb = r.chance(40) ? (int)r.below(300) : 0;
    bool const               gate0  = r.chance(30) && producers == 1 && count <= credit;
    bool const                direct = producers == 1 && has_room && r.chance(50);    // push as soon as a place is free
    std::counting_semaphore<> credits(direct ? 0 : (std::ptrdiff_t)credit);
    std::mutex                m;
    std::vector<Seen>         seen;
    std::atomic<bool>         gate{!gate0};
    std::atomic<long>         badid{0};
    g_slow    = r.chance(60) ? (int)r.below(60) : 0;
    g_preempt = r.chance(20) ? (int)r.below(4) : 0;
    say("%u worker(s), buffer %u, %u producer(s) of %u items with at most %u outstanding, slow copies %d%%, callback %d us%s%s", workers, buffer, producers,
        count, credit, (int)g_slow, slowcb, gate0 ? ", the callback waits until all are pushed" : "",
        direct ? ", items are pushed as soon as a place is free" : "");
    auto fn = [&](int error, slow const& v, int id) {
        while (!gate) usleep(50);
        if (error != 0) badid = 1000000 + error;
        if (slowcb) usleep((useconds_t)t_rng.below((std::uint64_t)slowcb));
        {
            std::lock_guard<std::mutex> l(m);
            seen.push_back({id, v});
        }
        if (!direct) credits.release();
    };
    {
        auto p = make(fn);
        g_preempt = 0;
        std::vector<std::thread> ts;
        std::uint64_t const      sd = r.next();
        for (unsigned t = 0; t < producers; ++t)
            ts.emplace_back([&, t] {
                t_rng.s = sd + t;
                for (unsigned i = 0; i < count; ++i) {
                    if (direct) {
                        while (!room(*p, buffer) && !credits.try_acquire()) t_rng.chance(5) ? (void)usleep(20) : std::this_thread::yield();
                    } else {
                        credits.acquire();
                    }
                    slow x((long)t, (long)i);
                    if (t_rng.chance(50))
                        p->push(x);
                    else
                        p->push(slow((long)t, (long)i));
                    if (t_rng.chance(10)) usleep((useconds_t)t_rng.below(300));
                }
            });
        for (auto& t : ts) t.join();
        gate = true;
        if (r.chance(30)) usleep((useconds_t)r.below(2000));
    }
    std::lock_guard<std::mutex> l(m);
    EXPECT(badid == 0, "the callback is told an error %ld", badid.load());
    EXPECT(seen.size() == std::size_t(producers) * count, "%zu items are processed, %zu were pushed before destruction", seen.size(), std::size_t(producers) * count);
    std::vector<std::vector<int>>  times(producers, std::vector<int>(count, 0));
    std::vector<std::vector<long>> last(workers, std::vector<long>(producers, -1));
    for (auto& s : seen) {
        EXPECT(s.item.good() && s.item.producer >= 0 && s.item.producer < (long)producers && s.item.number >= 0 && s.item.number < (long)count,
               "an item arrives changed (%ld, %ld)", s.item.producer, s.item.number);
        EXPECT(s.worker >= 0 && s.worker < (int)workers, "the callback is told worker %d", s.worker);
        EXPECT(++times[(std::size_t)s.item.producer][(std::size_t)s.item.number] == 1, "item %ld of producer %ld is processed twice", s.item.number, s.item.producer);
        long& la = last[(std::size_t)s.worker][(std::size_t)s.item.producer];
        EXPECT(la < s.item.number, "item %ld of producer %ld is processed after item %ld", s.item.number, s.item.producer, la);
        la = s.item.number;
    }
}

template <std::size_t N>
static void stage(Rng& r)
{
    using P = comm::pipeline_stage<slow, int, N, quiet>;
    say("pipeline_stage: ");
    stream(r, 1, N, requires(P& p) { p.queue_.tail - p.tail_; }, [](auto fn) {
        return std::make_unique<P>([fn](comm::pipeline_stage_exception e, slow const v, std::pair<int, int> const) -> int {
            fn((int)e, v, 0);
            return 0;
        });
    });
}

template <std::size_t N, std::size_t W>
static void pool(Rng& r)
{
    using P = comm::pipeline_stage_pool<slow, int, N, W, quiet>;
    say("pipeline_stage_pool: ");
    stream(r, W, N, requires(P& p) { p.pool_[0].tail - p.pool_[0].head; }, [](auto fn) {
        return std::make_unique<P>([fn](comm::pipeline_stage_exception e, slow const v, comm::measure_data const d) -> int {
            fn((int)e, v, d.id);
            return 0;
        });
    });
}

// Single producer, workers that stop inside the function until they are let go: the loads of the queues are known exactly
// whenever every worker either stands inside the function or has nothing queued.
template <std::size_t N, std::size_t W>
static void balance(Rng& r)
{
    using P = comm::pipeline_stage_pool<slow, int, N, W, quiet>;
    g_slow    = 0;
    g_preempt = 0;
    if (N >= 1000) vp_rate = 0;
    std::size_t const total = N < 1000 ? 1 + r.below(N * W < 600 ? N * W : (r.chance(50) ? 40 : N * W)) : N * W;
    unsigned const    go    = N < 1000 ? (unsigned)r.below(60) : 0;
    say("pipeline_stage_pool: %zu worker(s), buffer %zu, %zu items, workers stand inside the function", W, N, total);
    struct event {
        long             id;
        std::vector<int> inside, entered;    // inside: the worker has begun an item and may not end it
    };
    std::vector<event>             log;
    std::vector<int>               where(total, -1);
    std::atomic<int>               entered[W]{};
    std::atomic<int>               released[W]{};
    std::atomic<bool>              open{false};
    std::atomic<long>              bad{-1};
    std::mutex                     m;
    auto snap = [&](long id) {
        event e{id, {}, {}};
        if (N < 1000)
            for (std::size_t w = 0; w < W; ++w) {
                e.entered.push_back(entered[w]);
                e.inside.push_back(e.entered.back() == released[w] + 1);
            }
        log.push_back(e);
    };
    {
        auto p = std::make_unique<P>([&](comm::pipeline_stage_exception, slow const v, comm::measure_data const d) -> int {
            int const w = d.id;
            if (w < 0 || w >= (int)W || v.number < 0 || v.number >= (long)total) {
                bad = w;
                return 0;
            }
            {
                std::lock_guard<std::mutex> l(m);
                where[(std::size_t)v.number] = w;
            }
            int const n = ++entered[w];
            while (!open && released[w] < n) usleep(20);
            return 0;
        });
        for (std::size_t i = 0; i < total; ++i) {
            if (r.below(100) < go) {
                std::size_t const w = r.below(W);
                int const before = entered[w];
                if (before == released[w] + 1) {
                    ++released[w];
                    for (int k = 0; k < 40 && entered[w] == before; ++k) usleep(25);
                }
            }
            snap((long)i);
            p->push(slow(0, (long)i));
            if (N < 1000 && i < 3 * W + 2) usleep(300);
        }
        open = true;
    }
    EXPECT(bad < 0, "the callback is told worker %ld or gets an unknown item", bad.load());
    // replay the history: queued items and the worker inside the function
    std::vector<long> queued(W, 0);
    if (N >= 1000) {
        std::vector<long> got(W, 0);
        for (std::size_t i = 0; i < total; ++i) {
            EXPECT(where[i] >= 0, "item %zu is not processed", i);
            ++got[(std::size_t)where[i]];
        }
        for (std::size_t w = 0; w < W; ++w)
            EXPECT(got[w] <= (long)N + 1 + (long)W, "worker %zu gets %ld of %zu items, which does not fit its buffer", w, got[w], total);
        return;
    }
    for (auto& e : log) {
        // the items taken so far, by what was seen inside the function
        bool stable = true;
        std::vector<long> load(W);
        for (std::size_t w = 0; w < W; ++w) {
            long const waiting = queued[w] - e.entered[w];
            load[w] = waiting;
            if (waiting < 0) return;
            if (!e.inside[w] && waiting > 0) stable = false;
        }
        int const w = where[(std::size_t)e.id];
        EXPECT(w >= 0, "item %ld is not processed", e.id);
        if (stable) {
            bool a = true, b = true;    // an item inside the function may or may not count
            for (std::size_t o = 0; o < W; ++o) {
                if (load[o] < load[(std::size_t)w]) a = false;
                if (load[o] + e.inside[o] < load[(std::size_t)w] + e.inside[(std::size_t)w]) b = false;
            }
            EXPECT(a || b, "item %ld goes to worker %d with %ld waiting items, though another has fewer", e.id, w, load[(std::size_t)w]);
        }
        ++queued[(std::size_t)w];
    }
}

using clk = std::chrono::system_clock;
static void interval(Rng& r)
{
    int const  period  = 5 + (int)r.below(10);
    bool const stall   = r.chance(20);    // the second call takes fifteen periods
    int const  check   = stall ? 1 : 1 + (int)r.below(4);
    int const  run     = stall || (int)r.below(3) == 0 ? 400 : 20 + (int)r.below(60);
    bool const slowcb  = !stall && r.chance(20);
    bool const change  = !stall && r.chance(30) && run == 400;
    bool const longp   = !stall && r.chance(20);
    int const  pre     = longp ? 10 : r.chance(20) ? 15 : 0;
    bool const twice   = r.chance(30);
    auto const per     = longp ? std::chrono::milliseconds(10000) : std::chrono::milliseconds(period);
    say("interval_event: period %d ms, interval between checks %d ms, running for %d ms%s%s%s, stopped %s", (int)per.count(), check, run, stall ? ", the second call takes fifteen periods" : slowcb ? ", slow function" : "",
        change ? ", period changes" : "", pre ? ", creator preempted after the thread starts" : "", twice ? "twice" : "once");
    for (int attempt = 0;; ++attempt) {
        struct Shared {
            std::mutex                    m;
            std::vector<clk::time_point>  at;
            std::atomic<int>              running{0};
            std::atomic<bool>             twice{false};
        };
        auto             sh = std::make_shared<Shared>();
        char             what[300] = "";
        auto             body = [sh, slowcb, stall, period, own = std::make_shared<std::vector<long>>(4, 7)] {
            if (++sh->running != 1) sh->twice = true;
            bool second;
            {
                std::lock_guard<std::mutex> l(sh->m);
                sh->at.push_back(clk::now());
                second = sh->at.size() == 2;
            }
            if (stall && second) usleep(15000u * (unsigned)period);
            if (slowcb) usleep(3000);
            (*own)[1] = 8;
            --sh->running;
        };
        g_preempt  = pre;
        auto const t0 = clk::now();
        auto       e  = std::make_unique<func::interval_event>(body, per, std::chrono::milliseconds(check));
        auto const t1 = clk::now();
        g_preempt     = 0;
        EXPECT(e->period() == per && e->period_between_checks() == std::chrono::milliseconds(check), "the times given are not kept");
        std::size_t half = 0;
        clk::time_point th{};
        if (change) {
            usleep(1000 * 200);
            e->period(per * 2);
            EXPECT(e->period() == per * 2, "the period set is not kept");
            std::lock_guard<std::mutex> l(sh->m);
            half = sh->at.size();
            th   = clk::now();
            // (the second half is measured below)
        }
        usleep(1000 * (change ? 200 : run));
        auto const t2 = clk::now();
        if (r.chance(50))
            e->stop();
        else
            e.reset();
        EXPECT(sh->running == 0, "the function still runs when stop() or the destructor has returned");
        std::size_t n;
        {
            std::lock_guard<std::mutex> l(sh->m);
            n = sh->at.size();
        }
        if (twice && e) e->stop();
        if (r.chance(50)) e.reset();
        usleep(1000 * (useconds_t)(2 * check + (longp ? 0 : period) + 2));
        {
            std::lock_guard<std::mutex> l(sh->m);
            EXPECT(sh->at.size() == n, "the function runs after stop() has returned");
        }
        e.reset();
        usleep(1000 * (useconds_t)(check + 1));
        std::lock_guard<std::mutex> l(sh->m);
        EXPECT(sh->at.size() == n, "the function runs after the object was destroyed");
        EXPECT(!sh->twice, "two calls of the function run at the same time");
        for (std::size_t k = 0; k < n && !change; ++k)
            EXPECT(sh->at[k] - t0 >= per * (long)k, "call %zu is made %lld us after creation", k, (long long)((sh->at[k] - t0) / 1us));
        double const ms = (double)((t2 - t1) / 1us) / 1000.0 - 10;
        if (!longp && !change && !slowcb && run == 400 && check < period) {
            double const want = ms / (double)period;
            if ((double)n < want * 0.93 - 2) snprintf(what, sizeof what, "%zu calls in %.0f ms, %.0f are due", n, ms, want);
        }
        if (longp && run > 50 && n > 2) snprintf(what, sizeof what, "%zu calls in %d ms", n, run);
        if (run >= 60 && n == 0) snprintf(what, sizeof what, "no call in %d ms", run);
        if (change && (double)(n - half) > (double)((t2 - th) / 1ms) / (2.0 * period) + 4 && half + 4 > 190.0 / period)
            snprintf(what, sizeof what, "%zu calls in 200 ms after the period was set to %d ms", n - half, 2 * period);
        if (!what[0]) return;
        if (attempt == 2) fail("%s (three times in a row)", what);
    }
}

void run(std::string const& prop, Rng& r)
{
    g_patience = 30;
    t_rng.s = r.next();
    static int const rates[] = {0, 5, 50, 200};
    static int const longs[] = {20, 100, 1000};
    vp_rate = prop == "C22" ? 0 : rates[r.below(4)];
    vp_long = longs[r.below(3)];
    if (prop == "C22") return interval(r);
    if (prop == "C23") {
        switch (r.below(4)) {
        case 0: return stage<1>(r);
        case 1: return stage<2>(r);
        case 2: return stage<3>(r);
        default: return stage<8>(r);
        }
    }
    if (r.chance(40)) switch (r.below(8)) {
        case 0: return balance<600, 2>(r);
        case 1: return r.chance(20) ? balance<70000, 2>(r) : balance<40, 4>(r);
        case 2: return balance<300, 3>(r);
        case 3: return balance<3, 2>(r);
        case 4: return balance<4, 5>(r);
        case 5: return balance<20, 5>(r);
        default: return balance<20, 3>(r);
        }
    switch (r.below(4)) {
    case 0: return pool<1, 1>(r);
    case 1: return pool<2, 5>(r);
    case 2: return pool<3, 2>(r);
    default: return pool<4, 3>(r);
    }
}
