// Concrete contract oracle for comm/mediator.hpp: routing (C14), module table and lifetime (C15).
#include "common.hpp"
#include <algorithm>
#include <cstddef>
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
using u8 = std::uint8_t;
struct Aa { int x; int y; };
struct Bb { char c[5]; };
struct Cc { long v; };
struct Twelve { char c[12]; };
struct None { char c; };
template <class T> static std::size_t id_of() { return std::hash<std::string>{}(typeid(T).name()); }
template <class T> static std::vector<u8> bytes(T const& t) { return {(u8 const*)&t, (u8 const*)&t + sizeof t}; }

struct Ev { int who; std::size_t type; std::vector<u8> data; bool operator==(Ev const&) const = default; };
static std::vector<Ev> g_ev;
struct Any {
    int  who;
    bool sends = true;
    virtual void emit(std::vector<u8> const&) = 0;
    virtual std::size_t id() const             = 0;
    virtual std::vector<std::pair<std::size_t, std::size_t>> takes() const = 0;
    virtual base::module& mod()                                   = 0;
    virtual ~Any() = default;
};
template <class S, class... R> struct M;
template <class S>
struct M<S> : module<S>, Any {
    M(base::manager& m, int w) : module<S>(m) { who = w; }
    void emit(std::vector<u8> const& b) override { S s; memcpy((void*)&s, b.data(), sizeof s); static_cast<module<S>&>(*this).send(s); }
    std::size_t id() const override { return id_of<S>(); }
    std::vector<std::pair<std::size_t, std::size_t>> takes() const override { return {}; }
    base::module& mod() override { return *this; }
};
template <class S, class A>
struct M<S, A> : module<S, A>, Any {
    M(base::manager& m, int w) : module<S, A>(m) { who = w; }
    void data(A const& d) override { g_ev.push_back({who, id_of<A>(), bytes(d)}); }
    void emit(std::vector<u8> const& b) override { S s; memcpy((void*)&s, b.data(), sizeof s); static_cast<module<S, A>&>(*this).send(s); }
    std::size_t id() const override { return id_of<S>(); }
    std::vector<std::pair<std::size_t, std::size_t>> takes() const override { return {{id_of<A>(), sizeof(A)}}; }
    base::module& mod() override { return *this; }
};
template <class S, class A, class B, class C>
struct M<S, A, B, C> : module<S, A, B, C>, Any {
    M(base::manager& m, int w) : module<S, A, B, C>(m) { who = w; }
    void data(A const& d) override { g_ev.push_back({who, id_of<A>(), bytes(d)}); }
    void data(B const& d) override { g_ev.push_back({who, id_of<B>(), bytes(d)}); }
    void data(C const& d) override { g_ev.push_back({who, id_of<C>(), bytes(d)}); }
    void emit(std::vector<u8> const& b) override { S s; memcpy((void*)&s, b.data(), sizeof s); static_cast<module<S, A, B, C>&>(*this).send(s); }
    std::size_t id() const override { return id_of<S>(); }
    std::vector<std::pair<std::size_t, std::size_t>> takes() const override { return {{id_of<A>(), sizeof(A)}, {id_of<B>(), sizeof(B)}, {id_of<C>(), sizeof(C)}}; }
    base::module& mod() override { return *this; }
};
template <std::size_t N>
struct Mgr : manager<N> {
    void data(std::size_t id, u8* p, std::size_t n) override { g_ev.push_back({-1, id, {p, p + n}}); }
};
static std::unique_ptr<Any> make(int kind, base::manager& m, int who)
{
    switch (kind) {
    case 0: return std::make_unique<M<Aa>>(m, who);
    case 1: return std::make_unique<M<Aa, Bb>>(m, who);
    case 2: return std::make_unique<M<Bb, Aa, Cc, Twelve>>(m, who);
    case 3: return std::make_unique<M<Cc, Aa>>(m, who);
    case 4: return std::make_unique<M<Twelve, Twelve>>(m, who);
    default: return std::make_unique<M<Bb, Bb>>(m, who);
    }
}
template <std::size_t N>
static void table(Rng& r)
{
    alignas(Mgr<N>) static unsigned char raw[sizeof(Mgr<N>) + 64];
    memset(raw, (int)r.next(), sizeof raw);
    unsigned char guard[64];
    memcpy(guard, raw + sizeof(Mgr<N>), 64);
    auto*                             mg = new (raw) Mgr<N>();
    std::vector<std::unique_ptr<Any>> live;    // in registration order
    std::vector<std::unique_ptr<Any>> limbo;   // removed by hand
    say("manager<%zu>:", N);
    int who = 0;
    g_ev.clear();
    for (int s = 0, n = 1 + (int)r.below(24); s < n; ++s) {
        int op = (int)r.below(8);
        if (op < 3) {
            int kind = (int)r.below(6);
            say(" new#%d(kind %d)", who, kind);
            bool threw = false;
            std::unique_ptr<Any> p;
            try { p = make(kind, *mg, who); } catch (std::exception&) { threw = true; }
            EXPECT(threw == (live.size() >= N), "joining a manager with %zu of %zu modules %s", live.size(), N, threw ? "fails" : "succeeds");
            if (!threw) live.push_back(std::move(p));
            ++who;
        } else if (op == 3 && !live.empty()) {
            std::size_t k = r.below(live.size());
            say(" delete#%d", live[k]->who);
            live.erase(live.begin() + (long)k);
        } else if (op == 4 && !live.empty() && r.chance(50)) {
            std::size_t k = r.below(live.size());
            say(" remove#%d", live[k]->who);
            mg->remove_module(live[k]->mod());
            limbo.push_back(std::move(live[k]));
            live.erase(live.begin() + (long)k);
        } else if (op == 5 && !limbo.empty()) {
            say(" delete-removed#%d", limbo.back()->who);
            limbo.pop_back();
        } else if (!live.empty() || op == 7) {
            // a message
            std::vector<u8> b(64);
            for (auto& x : b) x = (u8)r.next();
            std::size_t id, sz;
            int         from = -1;
            bool        hook = true;
            if (op == 6 && !live.empty()) {
                auto& m = live[r.below(live.size())];
                id      = m->id();
                from    = m->who;
                sz      = id == id_of<Aa>() ? sizeof(Aa) : id == id_of<Bb>() ? sizeof(Bb) : id == id_of<Cc>() ? sizeof(Cc) : sizeof(Twelve);
                say(" send from #%d", from);
                g_ev.clear();
                m->emit(b);
            } else if (r.chance(50) && !live.empty()) {
                auto& m = live[r.below(live.size())];
                id      = m->id();
                sz      = r.chance(60) ? (id == id_of<Aa>() ? sizeof(Aa) : id == id_of<Bb>() ? sizeof(Bb) : id == id_of<Cc>() ? sizeof(Cc) : sizeof(Twelve)) : r.below(20);
                say(" distribute(sender #%d, %zu bytes)", m->who, sz);
                g_ev.clear();
                mg->distribute(m->mod(), b.data(), sz);
            } else {
                hook = false;
                g_ev.clear();
                switch (r.below(3)) {
                case 0: { Aa v; id = id_of<Aa>(); sz = sizeof v; say(" manager.send<Aa>"); memcpy(&v, b.data(), sz); mg->template send<Aa>(v); break; }
                case 1: { Bb v; id = id_of<Bb>(); sz = sizeof v; say(" manager.send<Bb>"); memcpy(&v, b.data(), sz); mg->template send<Bb>(v); break; }
                default: { Twelve v; id = id_of<Twelve>(); sz = sizeof v; say(" manager.send<Twelve>"); memcpy(&v, b.data(), sz); mg->template send<Twelve>(v); break; }
                }
            }
            b.resize(sz);
            std::vector<Ev> want;
            if (hook) want.push_back({-1, id, b});
            for (auto& m : live)
                if (m->id() != id)
                    for (auto& [t, k] : m->takes())
                        if (t == id) {
                            if (k == sz) want.push_back({m->who, id, b});
                            break;
                        }
            for (std::size_t i = 0; i < std::max(want.size(), g_ev.size()); ++i) {
                EXPECT(i < g_ev.size(), "module %d does not get the message", want[i].who);
                EXPECT(i < want.size(), "module %d gets the message although it should not", g_ev[i].who);
                EXPECT(g_ev[i].who == want[i].who, "delivery %zu goes to %d instead of %d", i, g_ev[i].who, want[i].who);
                EXPECT(g_ev[i] == want[i], "module %d gets other data", want[i].who);
            }
            if (r.chance(30)) {
                std::vector<u8> raw2(32, 7);
                std::size_t     k2 = r.below(12);
                bool            threw = false;
                Aa              out{};
                try { out = mg->template convert_field<Aa>(b.size() >= k2 ? b.data() : raw2.data(), k2); } catch (std::exception&) { threw = true; }
                EXPECT(threw == (k2 != sizeof(Aa)), "convert_field of %zu bytes %s", k2, threw ? "fails" : "succeeds");
                if (!threw) EXPECT(memcmp(&out, b.size() >= k2 ? b.data() : raw2.data(), k2) == 0, "convert_field returns other bytes");
            }
        }
        EXPECT(memcmp(guard, raw + sizeof(Mgr<N>), 64) == 0, "the manager writes outside itself");
    }
    while (!live.empty()) live.erase(live.begin() + (long)r.below(live.size()));
    limbo.clear();
    g_ev.clear();
    mg->template send<Aa>(Aa{});
    EXPECT(g_ev.empty(), "an empty manager delivers");
    mg->~Mgr<N>();
}
void run(std::string const&, Rng& r)
{
    switch (r.below(3)) {
    case 0: return table<1>(r);
    case 1: return table<3>(r);
    default: return table<8>(r);
    }
}
