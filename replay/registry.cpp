// Concrete contract oracle for the observer registries (C07, C08, C09, C11, C12).
#include "common.hpp"
#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <vector>
#include <xitren/comm/observer.hpp>
#include <xitren/comm/values/observable.hpp>
using namespace xitren::comm;

struct Log {
    struct Ev { int who; int kind; void const* src; long long val; long long aux; };
    std::vector<Ev> ev;
};
static Log g_log;

template <typename T>
struct PlainObs : observer<T> {
    int                                  id;
    std::function<void(void const*, T const&)> extra;
    explicit PlainObs(int i) : id{i} {}
    void disconnect(void const* src) override { g_log.ev.push_back({id, 1, src, 0, 0}); }
protected:
    void data(void const* src, T const& t) override
    {
        g_log.ev.push_back({id, 0, src, (long long)t, 0});
        if (extra) extra(src, t);
    }
};

template <typename O, typename T>
struct Model {
    std::vector<int> list;
    void same_calls(int kind, void const* src, long long val, char const* what)
    {
        EXPECT(g_log.ev.size() == list.size(), "%s: %zu calls for %zu registered observers", what, g_log.ev.size(), list.size());
        for (std::size_t i = 0; i < list.size(); ++i) {
            auto& e = g_log.ev[i];
            EXPECT(e.who == list[i], "%s: call %zu goes to observer %d instead of %d", what, i, e.who, list[i]);
            EXPECT(e.kind == kind && e.src == src, "%s: wrong kind of call or source at position %zu", what, i);
            EXPECT(kind == 1 || e.val == val, "%s: observer %d received %lld instead of %lld", what, e.who, e.val, val);
        }
        g_log.ev.clear();
    }
};

static unsigned char poison(Rng& r) { return (unsigned char)r.next(); }

// comm::observable, static and dynamic
template <bool Static, std::size_t Max>
static void plain(Rng& r)
{
    using O  = observable<int, Static, Static ? Max : 0>;
    using Ob = PlainObs<int>;
    alignas(O) unsigned char raw[sizeof(O)];
    memset(raw, poison(r), sizeof raw);
    say("%s<%zu>:", Static ? "observable_static" : "observable_dynamic", Max);
    O*                               o = new (raw) O();
    std::vector<std::unique_ptr<Ob>> obs;
    int const                        N = 1 + (int)r.below(Static ? Max + 3 : 12);
    for (int i = 0; i < N; ++i) obs.push_back(std::make_unique<Ob>(i));
    Model<O, int> m;
    g_log.ev.clear();
    int const steps = 1 + (int)r.below(30);
    int       x     = 100;
    for (int s = 0; s < steps; ++s) {
        int  w  = (int)r.below(N);
        auto it = std::find(m.list.begin(), m.list.end(), w);
        bool in = it != m.list.end();
        switch (r.below(8)) {
        case 0:
        case 1:
        case 2: {
            say(" add(%d)", w);
            if constexpr (Static) {
                auto e    = o->add_observer(*obs[w]);
                bool full = m.list.size() >= Max;
                EXPECT(full ? (e == observer_errors::list_is_full) :
                         in ? e == observer_errors::already_contains : e == observer_errors::ok,
                       "add_observer returned %d", (int)e);
                if (!full && !in) m.list.push_back(w);
            } else {
                int got = -1;
                try { o->add_observer(*obs[w]); } catch (typename O::exception& e) { got = (int)e.error; }
                EXPECT(got == (in ? (int)observer_errors::already_contains : -1), "add_observer: error %d", got);
                if (!in) m.list.push_back(w);
            }
            break;
        }
        case 3:
        case 4: {
            say(" remove(%d)", w);
            if constexpr (Static) {
                auto e = o->remove_observer(*obs[w]);
                EXPECT(e == (in ? observer_errors::ok : observer_errors::not_found), "remove_observer returned %d", (int)e);
            } else {
                int got = -1;
                try { o->remove_observer(*obs[w]); } catch (typename O::exception& e) { got = (int)e.error; }
                EXPECT(got == (in ? -1 : (int)observer_errors::not_found), "remove_observer: error %d", got);
            }
            if (in) m.list.erase(it);
            break;
        }
        case 5: {
            say(" clear");
            o->clear_observers();
            m.same_calls(1, o, 0, "clear_observers");
            m.list.clear();
            break;
        }
        case 6:
            if constexpr (Static) {
                // an observer that notifies again from inside its callback
                if (m.list.empty()) break;
                int who = m.list[r.below(m.list.size())];
                int const times = 1 + (int)r.below(3);
                say(" notify-recursive(from %d, %d times)", who, times);
                int got = (int)observer_errors::notify_recursion_detected, depth = 0;
                obs[who]->extra = [&](void const*, int const&) {
                    if (depth > 0) return;
                    ++depth;
                    for (int k = 0; k < times; ++k) {
                        int e2 = (int)o->notify_observers(7777);
                        if (e2 != (int)observer_errors::notify_recursion_detected) got = e2;
                    }
                    --depth;
                };
                auto e          = o->notify_observers(++x);
                obs[who]->extra = nullptr;
                EXPECT(e == observer_errors::ok, "notify_observers returned %d", (int)e);
                EXPECT(got == (int)observer_errors::notify_recursion_detected, "recursive notify_observers returned %d", got);
                m.same_calls(0, o, x, "notify_observers");
            }
            break;
        default: break;
        }
        say(" notify");
        ++x;
        if constexpr (Static) {
            auto e = o->notify_observers(x);
            EXPECT(e == observer_errors::ok, "notify_observers returned %d", (int)e);
        } else
            o->notify_observers(x);
        m.same_calls(0, o, x, "notify_observers");
    }
    say(" destroy");
    void const* src = o;
    o->~O();
    m.same_calls(1, src, 0, "destructor");
}

// comm::values::observable
template <typename T>
struct ValObs : values::observed<T> {
    static ValObs* cur;
    int id;
    template <typename S>
    ValObs(int i, S* s) : values::observed<T>([i, s](T v) { g_log.ev.push_back({i, 0, s, (long long)v, (long long)s->value()}); }), id{i} {}
    void disconnect(void const* src) override { g_log.ev.push_back({id, 1, src, 0, 0}); }
};

template <typename T, std::size_t Max>
static void vals(Rng& r)
{
    using O  = values::observable<T, Max>;
    using Ob = ValObs<T>;
    alignas(O) unsigned char raw[sizeof(O)];
    memset(raw, poison(r), sizeof raw);
    say("values::observable<%s%zu,%zu>:", std::is_signed_v<T> ? "i" : "u", sizeof(T) * 8, Max);
    O*                               o = new (raw) O();
    std::vector<std::unique_ptr<Ob>> obs;
    int const                        N = 1 + (int)r.below((Max ? Max : 8) + 3);
    for (int i = 0; i < N; ++i) obs.push_back(std::make_unique<Ob>(i, o));
    Model<O, T> m;
    g_log.ev.clear();
    EXPECT(o->value() == T{}, "initial value");
    T         v     = T{};
    int const steps = 1 + (int)r.below(30);
    auto      pick  = [&]() -> int {
        switch (r.below(4)) {
        case 0: return (int)r.below(5) - 2;
        case 1: return (int)r.below(200) - 100;
        default: return (int)r.below(1 << 20) - (1 << 19);
        }
    };
    for (int s = 0; s < steps; ++s) {
        int  w   = (int)r.below(N);
        auto it  = std::find(m.list.begin(), m.list.end(), w);
        bool in  = it != m.list.end();
        bool op  = true;
        T    ret = T{}, want = T{};
        switch (r.below(14)) {
        case 0:
        case 1:
        case 2:
        case 3: {
            say(" add(%d)", w);
            auto e    = o->add_observer(*obs[w]);
            bool full = Max && m.list.size() >= Max;
            EXPECT(full ? e == observer_errors::list_is_full : in ? e == observer_errors::already_contains : e == observer_errors::ok,
                   "add_observer returned %d", (int)e);
            if (!full && !in) m.list.push_back(w);
            op = false;
            break;
        }
        case 4:
        case 5: {
            say(" remove(%d)", w);
            auto e = o->remove_observer(*obs[w]);
            EXPECT(e == (in ? observer_errors::ok : observer_errors::not_found), "remove_observer returned %d", (int)e);
            if (in) m.list.erase(it);
            op = false;
            break;
        }
        case 6:
            if (r.below(3) == 0) {
                say(" clear");
                o->clear_observers();
                m.same_calls(1, o, 0, "clear_observers");
                m.list.clear();
            }
            op = false;
            break;
        case 7: say(" x++"); ret = (*o)++; want = v; v = (T)(v + 1); break;
        case 8: say(" x--"); ret = (*o)--; want = v; v = (T)(v - 1); break;
        case 9: say(" ++x"); ret = ++*o; want = v = (T)(v + 1); break;
        case 10: say(" --x"); ret = --*o; want = v = (T)(v - 1); break;
        case 11: { int k = pick(); say(" x+=%d", k); ret = *o += k; want = v = (T)(v + k); break; }
        case 12: { int k = pick(); say(" x-=%d", k); ret = *o -= k; want = v = (T)(v - k); break; }
        default: { T k = (T)pick(); say(" x=%lld", (long long)k); ret = *o = k; want = v = k; break; }
        }
        if (op) {
            EXPECT(ret == want, "the operator returned %lld instead of %lld", (long long)ret, (long long)want);
            for (auto& e : g_log.ev)
                EXPECT(e.aux == (long long)v, "value() is %lld instead of %lld while observers run", e.aux, (long long)v);
            m.same_calls(0, o, (long long)v, "operator");
        }
        EXPECT(o->value() == v, "value() is %lld instead of %lld", (long long)o->value(), (long long)v);
        if (r.chance(40)) {
            T n = (T)pick();
            say(" notify(%lld)", (long long)n);
            auto e = o->notify_observers(n);
            EXPECT(e == observer_errors::ok, "notify_observers returned %d", (int)e);
            m.same_calls(0, o, (long long)n, "notify_observers");
        }
    }
    say(" destroy");
    void const* src = o;
    o->~O();
    m.same_calls(1, src, 0, "destructor");
}

void run(std::string const& p, Rng& r)
{
    if (p == "C07" || (p == "C09" && r.chance(60))) {
        switch (r.below(4)) {
        case 0: return plain<true, 8>(r);
        case 1: return plain<true, 1>(r);
        case 2: return plain<true, 3>(r);
        default: return plain<true, 16>(r);
        }
    }
    if (p == "C08" || p == "C09") return plain<false, 0>(r);
    switch (r.below(6)) {
    case 0: return vals<int, 8>(r);
    case 1: return vals<int, 2>(r);
    case 2: return vals<std::uint8_t, 3>(r);
    case 3: return vals<long long, 4>(r);
    case 4: return vals<unsigned, 0>(r);
    default: return vals<int, 0>(r);
    }
}
