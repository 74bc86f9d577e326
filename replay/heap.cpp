// Concrete contract oracle for allocators/static_heap.hpp (C01-C05) and static_heap_allocator.hpp (C06): random histories
// against a model that knows which bytes of the arena are taken.
#include "common.hpp"
#include <cstddef>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <utility>
#include <vector>
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
using namespace xitren::allocators;
using u8 = unsigned char;
using sz = std::size_t;

// a number whose product with e is just above a multiple of 2^64 (or just below)
static sz wrapping(Rng& r, sz e)
{
    if (e < 2) return (sz)-1 - r.below(20);
    unsigned __int128 j = 1 + r.below(r.chance(60) || e < 3 ? 1 : e - 1);
    return (sz)(((j << 64) + e - 1) / e + r.below(12) - r.below(3));
}
// a broken expectation that belongs to another property ends the case: the model no longer applies
struct Stop {};
#define WHEN(p, c, ...)                                   \
    do {                                                  \
        if (!(c)) {                                       \
            if (strstr(p, g_prop.c_str())) fail(__VA_ARGS__); \
            throw Stop{};                                 \
        }                                                 \
    } while (0)

template <sz N>
struct Model {
    using H = static_heap<N>;
    struct Blk { u8* p; sz n, take; u8 pat; bool zero; };
    std::unique_ptr<H> own{new H()};
    H&                 h{*own};
    sz                 lo{}, len{}, low{};
    std::map<sz, Blk>  live;      // by offset of the block in the arena
    std::vector<u8*>   gone;      // freed and not reused since
    int                calls{};
    bool               hooked{};

    u8* base() { return reinterpret_cast<u8*>(&h); }
    sz  need(sz n) { return n > (sz)-1 - 32 ? 0 : (n + 16 + 7) / 8 * 8; }

    Model()
    {
        // where the arena lies, from a heap of its own
        auto t = std::make_unique<H>();
        len    = t->free_heap_size();
        WHEN("C01 C03 C04", len >= 32 - 0 || N < 48, "a new heap of %zu bytes has %zu free bytes", N, len);
        u8* p = static_cast<u8*>(t->allocate(len - 16));
        WHEN("C04", p, "a new heap with %zu free bytes does not serve %zu bytes", len, len - 16);
        lo = p - 16 - reinterpret_cast<u8*>(t.get());
        WHEN("C01", lo + len <= sizeof(H) && p > reinterpret_cast<u8*>(t.get()), "the arena lies outside the heap object");
        WHEN("C03", t->free_heap_size() == 0, "all is taken but %zu bytes are reported free", t->free_heap_size());
        WHEN("C03", t->minimum_ever_free_heap_size() == 0, "the minimum is %zu after all was taken", t->minimum_ever_free_heap_size());
        low = len;
        WHEN("C03", h.minimum_ever_free_heap_size() == len && h.free_heap_size() == len, "a new heap reports %zu free and a minimum of %zu",
             h.free_heap_size(), h.minimum_ever_free_heap_size());
    }
    sz free_sum()
    {
        sz s = len;
        for (auto& [o, b] : live) s -= b.take;
        return s;
    }
    std::vector<std::pair<sz, sz>> holes()
    {
        std::vector<std::pair<sz, sz>> r;
        sz at = lo;
        for (auto& [o, b] : live) {
            if (o > at) r.push_back({at, o - at});
            at = o + b.take;
        }
        if (at < lo + len) r.push_back({at, lo + len - at});
        return r;
    }
    sz biggest()
    {
        sz m = 0;
        for (auto [o, n] : holes()) m = n > m ? n : m;
        return m;
    }
    void check(char const* after)
    {
        for (auto& [o, b] : live)
            for (sz i = 0; i < b.n; ++i)
                WHEN("C02", b.p[i] == (u8)(b.pat + i * b.pat), "after %s byte %zu of the %zu byte block at offset %zu changed", after, i, b.n, o);
        WHEN("C03", h.free_heap_size() == free_sum(), "after %s %zu bytes are reported free but the free blocks have %zu", after, h.free_heap_size(), free_sum());
        WHEN("C03", h.minimum_ever_free_heap_size() == low, "after %s the minimum is reported as %zu, the lowest was %zu", after, h.minimum_ever_free_heap_size(), low);
    }
    void hook(Rng& r)
    {
        hooked = r.chance(80);
        say(hooked ? " hook" : " unhook");
        if (!hooked) {
            h.on_fail(nullptr);
            return;
        }
        struct Big { Model* m; void* pad[4]; };
        Big b{this, {}};
        switch (r.below(3)) {
        case 0: h.on_fail([this] { ++calls; }); break;
        case 1: h.on_fail([b] { ++b.m->calls; }); break;
        default: {
            std::function<void(void)> f = [b, x = std::vector<int>(10, 1)] { b.m->calls += x[9]; };
            h.on_fail(f);
            f = [] {};
        }
        }
    }
    u8* take(Rng& r, sz n, bool zeroed = false, sz k = 1, sz each = 1)
    {
        sz   before = h.free_heap_size(), m = biggest(), w = need(n);
        bool ovf    = zeroed && each && k > (sz)-1 / each;
        calls       = 0;
        u8* p;
        if (zeroed) {
            say(" calloc(%zu,%zu)", k, each);
            p = static_cast<u8*>(h.callocate(k, each));
        } else {
            say(" alloc(%zu)", n);
            p = static_cast<u8*>(h.allocate(n));
        }
        sz after = h.free_heap_size();
        if (!p) {
            if (ovf) {
                WHEN("C03", after == before, "a refused request changes the free size from %zu to %zu", before, after);
                return p;
            }
            WHEN("C04", !(n && w && w <= m), "a request of %zu bytes is refused though a free block of %zu bytes exists (it needs %zu)", n, m, w);
            if (!(zeroed && !n)) WHEN("C04", calls == (hooked ? 1 : 0), "the failure callback ran %d times for a refused request", calls);
            WHEN("C03 C04", after == before, "a refused request changes the free size from %zu to %zu", before, after);
            check("a refused request");
            return p;
        }
        say("=%td", p - base());
        WHEN("C02 C04", !ovf, "a block is returned though %zu * %zu does not fit in size_t", k, each);
        WHEN("C04", calls == 0, "the failure callback ran %d times for a successful request", calls);
        WHEN("C01", n > 0, "a request of no bytes returns a block");
        WHEN("C01", (reinterpret_cast<std::uintptr_t>(p) & 7) == 0, "the pointer %p is not aligned", (void*)p);
        WHEN("C01", p >= base() && n <= sizeof(H) && p + n <= base() + sizeof(H), "the %zu bytes are not inside the heap object", n);
        sz o = p - 16 - base();
        WHEN("C01", p - base() >= (std::ptrdiff_t)(lo + 16) && (sz)(p - base()) + n <= lo + len, "the %zu bytes at offset %td leave the arena [%zu,%zu)", n, p - base(), lo, lo + len);
        WHEN("C03", after < before, "the free size goes from %zu to %zu", before, after);
        sz t = before - after;
        for (auto& [q, b] : live)
            WHEN("C01", o + 16 + n <= q || q + b.take <= o, "the %zu bytes at offset %zu overlap the block at offset %zu taking %zu bytes", n, o + 16, q, b.take);
        WHEN("C03", t >= w, "a block for %zu bytes takes only %zu of the free size", n, t);
        auto hs = holes();
        bool in = false;
        for (auto [q, z] : hs) in |= q <= o && o + t <= q + z;
        WHEN("C03", in, "the free size drops by %zu, which is more than the free block at offset %zu", t, o);
        if (zeroed)
            for (sz i = 0; i < n; ++i) WHEN("C02", p[i] == 0, "byte %zu of a zeroed block of %zu bytes is %02x", i, n, p[i]);
        Blk b{p, n, t, (u8)r.next(), zeroed};
        for (sz i = 0; i < n; ++i) p[i] = (u8)(b.pat + i * b.pat);
        live[o] = b;
        gone.clear();
        if (after < low) low = after;
        check("a request");
        return p;
    }
    void give(sz o)
    {
        Blk b = live[o];
        say(" free(%zu)", o + 16);
        sz before = h.free_heap_size();
        live.erase(o);
        h.deallocate(b.p);
        sz after = h.free_heap_size();
        WHEN("C03", after == before + b.take, "freeing the block at offset %zu changes the free size from %zu to %zu, taking it cost %zu", o, before, after, b.take);
        WHEN("C05", after > before, "freeing the block at offset %zu does not return it", o);
        gone.push_back(b.p);
        check("a free");
    }
    void again(Rng& r)
    {
        u8* p = r.chance(30) || gone.empty() ? nullptr : gone[r.below(gone.size())];
        say(" free-again(%td)", p ? p - base() : 0);
        sz f = h.free_heap_size(), m = h.minimum_ever_free_heap_size();
        h.deallocate(p);
        WHEN("C05", h.free_heap_size() == f && h.minimum_ever_free_heap_size() == m, "freeing %s changes the free size from %zu to %zu",
             p ? "a free block" : "null", f, h.free_heap_size());
        check("a repeated free");
    }
    sz amount(Rng& r)
    {
        sz m = biggest(), f = free_sum();
        switch (r.below(12)) {
        case 0: return 0;
        case 1: return (sz)-1 - r.below(40);
        case 2: return ((sz)1 << 63) - 24 + r.below(40);
        case 3: return m > 16 ? m - 16 - r.below(m - 16 > 60 ? 60 : m - 16) : 1;
        case 4: return m > 16 ? m - 16 + r.below(10) : 1;
        case 5: return f - 16 + r.below(16);
        case 6: {
            auto v = holes();
            if (v.empty()) return 1;
            sz s = v[r.below(v.size())].second;
            return s > 16 ? s - 16 + r.below(9) - 4 : s;
        }
        case 7: return r.below(N);
        case 8: return r.below(N / 4 + 1);
        default: return 1 + r.below(r.chance(50) ? 24 : N / 8 + 1);
        }
    }
    void probe(Rng& r)
    {
        // every maximal run of free bytes is one block: it can be taken at once
        auto v = holes();
        sz   m = biggest();
        if (m < 24) return;
        say(" probe");
        u8* p = take(r, m - 16);
        WHEN("C04 C05", p, "adjacent free blocks of %zu bytes together do not serve a request of %zu", m, m - 16);
        give(p - 16 - base());
    }
    void history(Rng& r)
    {
        say("static_heap<%zu>:", N);
        int  steps = 5 + r.below(r.chance(20) ? 160 : 40);
        unsigned more = 35 + r.below(40);
        for (int i = 0; i < steps; ++i) {
            if (r.chance(4)) hook(r);
            if (r.chance(3)) {
                say(" reset");
                h.reset_minimum_ever_free_heap_size();
                low = free_sum();
                check("a reset");
            }
            if (r.chance(10)) again(r);
            if (r.chance(more)) {
                if (r.chance(20)) {
                    sz k = r.chance(80) ? r.below(20) : (sz)-1 / (1 + r.below(5)) + r.below(3) - 1, e = 1 + r.below(12);
                    if (r.chance(10)) e = 0;
                    if (r.chance(30)) {
                        e = r.chance(50) ? 1 + r.below(100) : r.chance(50) ? (sz)1 << r.below(64) : (sz)r.next() >> r.below(60);
                        k = wrapping(r, e);
                    }
                    if (r.chance(50)) std::swap(k, e);
                    take(r, k * e, true, k, e);
                } else {
                    take(r, amount(r));
                }
            } else if (!live.empty()) {
                auto it = live.begin();
                if (r.chance(30)) it = r.chance(50) ? live.begin() : std::prev(live.end());
                else std::advance(it, r.below(live.size()));
                give(it->first);
            }
            if (r.chance(8)) probe(r);
        }
        while (!live.empty()) {
            auto it = live.begin();
            std::advance(it, r.below(live.size()));
            give(it->first);
            if (r.chance(20)) again(r);
        }
        WHEN("C03", h.free_heap_size() == len, "all is freed but %zu of %zu bytes are reported free", h.free_heap_size(), len);
        probe(r);
    }
};

// many small blocks, freed in every order: all merges
template <sz N>
static void merges(Rng& r)
{
    Model<N> m;
    say("static_heap<%zu>:", N);
    std::vector<sz> at;
    sz  n = 1 + r.below(30);
    int k = 3 + r.below(5);
    for (int i = 0; i < k; ++i)
        if (u8* p = m.take(r, r.chance(50) ? n : 1 + r.below(30))) at.push_back(p - 16 - m.base());
    while (!at.empty()) {
        sz i = r.below(at.size());
        m.give(at[i]);
        at.erase(at.begin() + i);
        if (r.chance(70)) m.probe(r);
        if (r.chance(30))
            if (u8* p = m.take(r, m.amount(r)))
                if (r.chance(50)) at.push_back(p - 16 - m.base());
    }
}

template <sz B>
struct Elem { u8 b[B]; };
struct alignas(8) Wide { long x, y; };
struct E16 { long x; u8 y; };

template <class T, sz N>
static void adaptor(Rng& r)
{
    auto h = std::make_unique<static_heap<N>>(), g = std::make_unique<static_heap<N>>();
    using A = static_heap_allocator<T, N>;
    using Tr = std::allocator_traits<A>;
    using R = typename Tr::template rebind_alloc<long double*>;
    A a{*h}, b{*g}, c{a};
    R ra(a);
    A back(ra);
    say("static_heap_allocator<%zu bytes,%zu>:", sizeof(T), N);
    EXPECT(a == c && !(a != c) && a == ra && ra == a && c == a, "copies of an adaptor do not compare equal");
    EXPECT(a != b && !(a == b), "adaptors of different heaps compare equal");
    struct Got { T* p; sz n; bool h; };
    std::vector<Got> got;
    sz               total = h->free_heap_size();
    for (int i = 0, e = 3 + r.below(20); i < e; ++i) {
        if (r.chance(65) || got.empty()) {
            sz n;
            switch (r.below(7)) {
            case 0: n = 0; break;
            case 1: n = (sz)-1 / sizeof(T) + r.below(5) - 2; break;
            case 2: n = (sz)-1 / sizeof(T) + 1 + r.below(2 + 3 * N / sizeof(T)); break;
            case 3: n = (sz)1 << (63 - r.below(6)); n += r.below(N / sizeof(T) + 1); break;
            case 4: n = wrapping(r, r.chance(50) ? sizeof(T) : 1 + r.below(2 * sizeof(T) + 16)); break;
            default: n = r.below(N / sizeof(T) / 2 + 2);
            }
            bool own = r.chance(70);
            auto& m  = own ? *h : *g;
            sz   f0 = m.free_heap_size(), o0 = (own ? *g : *h).free_heap_size();
            say(" %s.allocate(%zu)", own ? "h" : "g", n);
            T* p = nullptr;
            try {
                p = own ? (r.chance(50) ? a.allocate(n) : r.chance(50) ? Tr::allocate(c, n) : back.allocate(n)) : b.allocate(n);
            } catch (std::bad_alloc const&) {
                EXPECT(m.free_heap_size() == f0, "a request of %zu elements throws bad_alloc but %zu bytes are gone", n, f0 - m.free_heap_size());
                bool fits = n && n <= N / sizeof(T);
                if (fits) {
                    // it may ask for more than it needs, but not without bounds
                    void* q = m.allocate(4 * n * sizeof(T) + 256);
                    EXPECT(!q, "a request of %zu elements throws bad_alloc though the heap has room", n);
                }
                continue;
            } catch (...) {
                fail("a request of %zu elements throws something that is not bad_alloc", n);
            }
            EXPECT(p, "a request of %zu elements returns null", n);
            EXPECT((own ? *g : *h).free_heap_size() == o0, "the request changed the other heap");
            EXPECT(n <= N / sizeof(T), "a block of %zu bytes is returned for %zu elements", f0 - m.free_heap_size(), n);
            EXPECT(f0 - m.free_heap_size() >= n * sizeof(T), "a block of %zu bytes is returned for %zu elements of %zu bytes", f0 - m.free_heap_size(), n, sizeof(T));
            u8 *lo = (u8*)&m, *hi = lo + sizeof(m);
            EXPECT((u8*)p >= lo && (u8*)(p + n) <= hi, "the block is not inside the heap of the adaptor");
            memset((void*)p, 0x5a, n * sizeof(T));
            got.push_back({p, n, own});
        } else {
            sz   i = r.below(got.size());
            Got  x = got[i];
            got.erase(got.begin() + i);
            auto& m = x.h ? *h : *g;
            sz    f0 = m.free_heap_size(), o0 = (x.h ? *g : *h).free_heap_size();
            say(" %s.deallocate(%zu)", x.h ? "h" : "g", x.n);
            sz nn = r.chance(70) ? x.n : 0;
            if (!x.h) b.deallocate(x.p, x.n);
            else if (r.chance(40)) a.deallocate(x.p, nn);
            else if (r.chance(50)) ra.deallocate(x.p, nn);
            else Tr::deallocate(back, x.p, x.n);
            EXPECT(m.free_heap_size() >= f0 + x.n * sizeof(T), "deallocate returns %zu bytes for %zu elements", m.free_heap_size() - f0, x.n);
            EXPECT((x.h ? *g : *h).free_heap_size() == o0, "deallocate changed the other heap");
        }
    }
    for (auto& x : got) x.h ? c.deallocate(x.p, x.n) : b.deallocate(x.p, x.n);
    EXPECT(h->free_heap_size() == total && g->free_heap_size() == total, "not all memory came back to its heap");
}

template <sz N>
static void containers(Rng& r)
{
    auto h = std::make_unique<static_heap<N>>(), g = std::make_unique<static_heap<N>>();
    sz   total = h->free_heap_size();
    say("containers on static_heap<%zu>", N);
    {
        static_heap_allocator<int, N> a{*h}, b{*g};
        std::vector<int, static_heap_allocator<int, N>> v(a), w(b);
        std::list<int, static_heap_allocator<int, N>>   l(a), k(b);
        std::vector<int> rv, rw, rl, rk;
        try {
            for (int i = 0, e = r.below(60); i < e; ++i) {
                int x = (int)r.next();
                switch (r.below(7)) {
                case 0: v.push_back(x); rv.push_back(x); break;
                case 1: w.push_back(x); rw.push_back(x); break;
                case 2: l.push_back(x); rl.push_back(x); break;
                case 3: k.push_back(x); rk.push_back(x); break;
                case 4: if (!v.empty()) { v.pop_back(); rv.pop_back(); } break;
                case 5: v = w; rv = rw; break;
                default: w = std::move(v); rw = rv; v.clear(); rv.clear(); break;
                }
            }
            EXPECT(std::equal(v.begin(), v.end(), rv.begin(), rv.end()) && std::equal(w.begin(), w.end(), rw.begin(), rw.end()), "a vector lost its contents");
            EXPECT(std::equal(l.begin(), l.end(), rl.begin(), rl.end()) && std::equal(k.begin(), k.end(), rk.begin(), rk.end()), "a list lost its contents");
        } catch (std::bad_alloc const&) {
        }
    }
    EXPECT(h->free_heap_size() == total && g->free_heap_size() == total, "not all memory came back to its heap: %zu and %zu of %zu", h->free_heap_size(),
           g->free_heap_size(), total);
}

template <sz N>
static void heap(Rng& r)
{
    if (r.chance(30)) return merges<N>(r);
    Model<N> m;
    m.history(r);
}

void run(std::string const& prop, Rng& r)
{
    try {
        if (prop == "C06") {
            switch (r.below(8)) {
            case 0: return adaptor<u8, 256>(r);
            case 1: return adaptor<Elem<3>, 1000>(r);
            case 2: return adaptor<int, 256>(r);
            case 3: return adaptor<Wide, 600>(r);
            case 4: return adaptor<Elem<24>, 1000>(r);
            case 5: return adaptor<Elem<200>, 4096>(r);
            case 6: return adaptor<E16, 300>(r);
            default: return containers<2048>(r);
            }
        }
        switch (r.below(8)) {
        case 0: return heap<64>(r);
        case 1: return heap<100>(r);
        case 2: return heap<203>(r);
        case 3: return heap<256>(r);
        case 4: return heap<1000>(r);
        case 5: return heap<1003>(r);
        case 6: return heap<4096>(r);
        default: return heap<520>(r);
        }
    } catch (Stop const&) {
    }
}
