// Concrete contract oracle for comm/values/observed.hpp (C13).
#include "common.hpp"
#include <functional>
#include <memory>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
using namespace xitren::comm;

template <class T>
static void go(Rng& r)
{
    using O = values::observed<T>;
    struct Call { int fn; T arg; T seen; };
    std::vector<Call> calls;
    std::unique_ptr<O> o;
    auto make = [&](int k) { return [&calls, &o, k](T const v) { calls.push_back({k, v, o->value()}); }; };
    say("observed<%zu bytes>:", sizeof(T));
    int cur = -1;
    if (r.chance(50)) {
        o = std::make_unique<O>();
    } else {
        cur = 0;
        say(" with function 0");
        o = std::make_unique<O>(std::function<void(T const)>(make(0)));
    }
    T   val{};
    EXPECT(o->value() == val, "a new object holds another value");
    int x = 1;
    for (int i = 0, n = (int)r.below(12); i < n; ++i) {
        calls.clear();
        switch (r.below(4)) {
        case 0:
            if (r.chance(30)) {
                say(" on_update(empty)");
                o->on_update(std::function<void(T const)>{});
                cur = -1;
            } else {
                cur = i + 1;
                say(" on_update(%d)", cur);
                o->on_update(make(cur));
            }
            EXPECT(calls.empty(), "on_update runs a function");
            break;
        case 1: {
            say(" disconnect");
            o->disconnect(&x);
            EXPECT(calls.empty(), "disconnect runs a function");
            break;
        }
        default: {
            T const v = (T)(r.chance(30) ? (std::uint64_t)val : r.next());
            say(" notification(%lld)", (long long)v);
            o->notification(r.chance(50) ? (void const*)&x : nullptr, v);
            val = v;
            if (cur < 0) {
                EXPECT(calls.empty(), "a removed function still runs");
            } else {
                EXPECT(calls.size() == 1 && calls[0].fn == cur, "%zu functions ran", calls.size());
                EXPECT(calls[0].arg == v, "the function received another value");
                EXPECT(calls[0].seen == v, "the function sees the value %lld from before the update", (long long)calls[0].seen);
            }
        }
        }
        EXPECT(o->value() == val, "value() is %lld instead of %lld", (long long)o->value(), (long long)val);
    }
}
void run(std::string const&, Rng& r)
{
    switch (r.below(4)) {
    case 0: return go<int>(r);
    case 1: return go<unsigned char>(r);
    case 2: return go<long long>(r);
    default: return go<short>(r);
    }
}
