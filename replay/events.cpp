// Concrete contract oracle for the compile-time observer list (C10) and fast_pimpl (C20).
#include "common.hpp"
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>
#include <xitren/comm/observer_static.hpp>
#include <xitren/func/fast_pimpl.hpp>
using namespace xitren::comm;
using namespace xitren::func;

struct Ev { int who; void const* src; void const* data; int val; };
static std::vector<Ev> g_ev;
struct Pad { long pad[3]; };
template <int K>
struct Ob : Pad, observer<int, Ob<K>> {
    int  id;
    explicit Ob(int i) : id{i} {}
    void notification_impl(observable_impl<int> const& src, int const& d) noexcept { g_ev.push_back({id, &src, &d, d}); }
};

template <class O>
static void check(O& o, std::vector<int> const& ids, Rng& r)
{
    int const n = (int)r.below(5);
    say(" notify x%d", n);
    for (int i = 0; i < n; ++i) {
        int v = (int)r.next();
        g_ev.clear();
        o.notify(v);
        EXPECT(g_ev.size() == ids.size(), "%zu calls for %zu observers", g_ev.size(), ids.size());
        for (std::size_t k = 0; k < ids.size(); ++k) {
            EXPECT(g_ev[k].who == ids[k], "call %zu goes to observer %d instead of %d", k, g_ev[k].who, ids[k]);
            EXPECT(g_ev[k].val == v, "observer %d received %d instead of %d", ids[k], g_ev[k].val, v);
            EXPECT(g_ev[k].src == &o.root, "observer %d received another source", ids[k]);
        }
    }
}

static void statics(Rng& r)
{
    Ob<0> a{0}, a2{1};
    Ob<1> b{2}, b2{3};
    Ob<2> c{4};
    switch (r.below(5)) {
    case 0: { say("observable<A>"); observable<int, Ob<0>> o(a); check(o, {0}, r); break; }
    case 1: { say("observable<B,A>"); observable<int, Ob<1>, Ob<0>> o(b, a); check(o, {2, 0}, r); break; }
    case 2: { say("observable<A,B,C>"); observable<int, Ob<0>, Ob<1>, Ob<2>> o(a, b, c); check(o, {0, 2, 4}, r); break; }
    case 3: { say("observable<A,A,B,A>"); observable<int, Ob<0>, Ob<0>, Ob<1>, Ob<0>> o(a, a2, b, a); check(o, {0, 1, 2, 0}, r); break; }
    default: { say("observable<C,B,A,B,A,C>"); observable<int, Ob<2>, Ob<1>, Ob<0>, Ob<1>, Ob<0>, Ob<2>> o(c, b, a, b2, a2, c); check(o, {4, 2, 0, 3, 1, 4}, r); }
    }
}

// ------------------------------------------------------------------ fast_pimpl
enum Op { CTOR0, CTOR2, COPY, MOVE, ASSIGN, MASSIGN, DTOR };
struct Call { Op op; void const* self; void const* other; };
static std::vector<Call> g_calls;
static int               g_throw = -1;    // index of the operation that throws
static bool              g_except;
static void note(Op op, void const* s, void const* o = nullptr)
{
    g_calls.push_back({op, s, o});
    if (op != DTOR && g_throw == 0) {
        g_throw = -1;
        throw std::runtime_error("x");
    }
    if (op != DTOR && g_throw > 0) --g_throw;
}
template <int N, int Al>
struct alignas(Al) Impl {
    long v;
    char rest[N - 8];
    Impl() noexcept(false) : v{42} { note(CTOR0, this); }
    Impl(int a, long const& b) noexcept(false) : v{a * 1000 + b} { note(CTOR2, this, &b); }
    Impl(Impl const& o) noexcept(false) : v{o.v} { note(COPY, this, &o); }
    Impl(Impl&& o) noexcept(false) : v{o.v} { note(MOVE, this, &o); o.v = -1; }
    Impl& operator=(Impl const& o) noexcept(false) { note(ASSIGN, this, &o); v = o.v; return *this; }
    Impl& operator=(Impl&& o) noexcept(false) { note(MASSIGN, this, &o); v = o.v; o.v = -1; return *this; }
    ~Impl() { note(DTOR, this); v = -2; }
};
template <class T, std::size_t S, std::size_t A, bool Strict>
static void pimpl(Rng& r)
{
    using P = fast_pimpl<T, S, A, Strict>;
    say("fast_pimpl<%zu in %zu, align %zu>:", sizeof(T), S, A);
    EXPECT(alignof(P) >= A && sizeof(P) >= S, "too small or misaligned");
    alignas(P) static unsigned char raw[4][sizeof(P)];
    P*                              live[4] = {};
    long                            val[4]  = {};
    g_calls.clear();
    g_throw         = -1;
    int const steps = 1 + (int)r.below(20);
    auto one = [&](Op op, int i, void const* other, bool threw, bool will) {
        EXPECT(threw == will, "the exception of the managed object was %s", will ? "swallowed" : "invented");
        EXPECT(g_calls.size() == 1, "%zu operations of the managed object instead of one", g_calls.size());
        auto& c = g_calls[0];
        EXPECT(c.op == op, "operation %d of the managed object instead of %d", c.op, op);
        EXPECT((unsigned char const*)c.self >= raw[i] && (unsigned char const*)c.self + sizeof(T) <= raw[i] + sizeof(P), "the managed object lies outside");
        EXPECT((std::uintptr_t)c.self % alignof(T) == 0, "the managed object is misaligned");
        if (other) EXPECT(c.other == other, "the operation got another operand");
    };
    for (int s = 0; s < steps; ++s) {
        int  i = (int)r.below(4), j = (int)r.below(4);
        bool will = r.chance(15);
        bool threw = false;
        if (!live[i]) {
            memset(raw[i], (int)r.next(), sizeof raw[i]);
            g_calls.clear();
            g_throw = will ? 0 : -1;
            int op  = (int)r.below(5);
            if (op >= 2 && (!live[j] || i == j)) op = op == 2 ? 0 : 1;
            Op          want  = CTOR0;
            void const* other = nullptr;
            long        nv = 42, b = (long)r.below(1000);
            int         a = (int)r.below(1000);
            P*          p = nullptr;
            say(" new(%d,op %d,%d%s)", i, op, j, will ? ",throws" : "");
            if (op >= 2) other = &**live[j], nv = val[j];
            try {
                switch (op) {
                case 0: p = new (raw[i]) P(); break;
                case 1: want = CTOR2; nv = a * 1000 + b; other = &b; p = new (raw[i]) P(a, b); break;
                case 2: want = COPY; p = new (raw[i]) P(static_cast<P const&>(*live[j])); break;
                case 3: want = COPY; p = new (raw[i]) P(*live[j]); break;
                default: want = MOVE; p = new (raw[i]) P(std::move(*live[j])); if (!will) val[j] = -1; break;
                }
            } catch (std::runtime_error&) { threw = true; }
            one(want, i, other, threw, will);
            if (!threw) {
                live[i] = p;
                val[i]  = nv;
            } else if (want == MOVE) {
                val[j] = (*live[j])->v;
            }
        } else if (r.chance(35)) {
            say(" delete(%d)", i);
            g_calls.clear();
            g_throw = -1;
            live[i]->~P();
            live[i] = nullptr;
            one(DTOR, i, nullptr, false, false);
        } else if (live[j] && i != j) {
            bool mv = r.chance(50);
            say(" %s(%d,%d%s)", mv ? "moveassign" : "assign", i, j, will ? ",throws" : "");
            g_calls.clear();
            g_throw = will ? 0 : -1;
            void const* other = &**live[j];
            P*          ret   = nullptr;
            try {
                ret = mv ? &(*live[i] = std::move(*live[j])) : &(*live[i] = static_cast<P const&>(*live[j]));
            } catch (std::runtime_error&) { threw = true; }
            one(mv ? MASSIGN : ASSIGN, i, other, threw, will);
            if (!threw) {
                EXPECT(ret == live[i], "assignment returns another object");
                val[i] = val[j];
                if (mv) val[j] = -1;
            }
        }
        for (int k = 0; k < 4; ++k)
            if (live[k]) {
                P const& c = *live[k];
                EXPECT((*live[k])->v == val[k] && c->v == val[k] && (**live[k]).v == val[k] && (*c).v == val[k], "object %d holds %ld instead of %ld", k, (**live[k]).v, val[k]);
                EXPECT(&**live[k] == live[k]->operator->() && &*c == c.operator->(), "accessors disagree");
            }
    }
    g_throw = -1;
    for (auto p : live)
        if (p) p->~P();
}

void run(std::string const& prop, Rng& r)
{
    if (prop == "C10") return statics(r);
    switch (r.below(4)) {
    case 0: return pimpl<Impl<16, 8>, 16, 8, true>(r);
    case 1: return pimpl<Impl<16, 8>, 40, 16, false>(r);
    case 2: return pimpl<Impl<96, 32>, 96, 32, true>(r);
    default: return pimpl<Impl<24, 8>, 24, 8, true>(r);
    }
}
