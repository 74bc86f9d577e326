// Concrete contract oracle for func/packet.hpp: packet (C18) and packet_accessor (C19).
#include "common.hpp"
#include <algorithm>
#include <cstddef>
#include <memory>
#include <new>
#include <vector>
#include <xitren/func/packet.hpp>
using namespace xitren::func;
using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;

static u32 mix(u8 const* b, u8 const* e)
{
    u32 h = 2166136261u;
    for (; b != e; ++b) h = (h ^ *b) * 16777619u;
    return h ^ (h >> 15);
}
template <class V, class I>
struct CrcT {
    using value_type = V;
    template <class It>
    static constexpr value_type calculate(It b, It e) noexcept { return value_type{(I)mix(std::to_address(b), std::to_address(e))}; }
    template <std::size_t N>
    static constexpr value_type calculate(std::array<u8, N> const& a) noexcept { return calculate(a.begin(), a.end()); }
};
using Crc  = CrcT<lsb_t<u16>, u16>;
using Crc4 = CrcT<msb_t<u32>, u32>;
template <class C>
static std::vector<u8> crc_bytes(std::vector<u8> const& v)
{
    u32             h = mix(v.data(), v.data() + v.size());
    std::vector<u8> o;
    if (sizeof(typename C::value_type) == 2) {
        o = {(u8)h, (u8)(h >> 8)};
    } else {
        o = {(u8)(h >> 24), (u8)(h >> 16), (u8)(h >> 8), (u8)h};
    }
    return o;
}
struct __attribute__((__packed__)) H2 { u8 magic[2]; };
struct __attribute__((__packed__)) F5 { u8 a; lsb_t<u32> b; };
struct __attribute__((__packed__)) H3 { u8 kind; msb_t<u16> id; };
struct __attribute__((__packed__)) F22 { u8 raw[22]; };
struct __attribute__((__packed__)) T3 { u8 raw[3]; };

template <class T>
static std::vector<u8> bytes(T const& t)
{
    std::vector<u8> v(sizeof t);
    memcpy(v.data(), (void const*)&t, sizeof t);
    return v;
}
template <class T>
static T rnd(Rng& r)
{
    T t;
    for (std::size_t i = 0; i < sizeof t; ++i) ((u8*)&t)[i] = (u8)r.next();
    return t;
}
static std::vector<u8> operator+(std::vector<u8> a, std::vector<u8> const& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

template <class H, class F, class C>
static void pkt(Rng& r)
{
    using P                 = packet<H, F, C>;
    constexpr std::size_t K = sizeof(typename C::value_type), L = sizeof(H) + sizeof(F) + K;
    say("packet<%zu,%zu,%zu>", sizeof(H), sizeof(F), K);
    static_assert(sizeof(P) == L && P::length == L);
    H    h    = rnd<H>(r);
    F    f    = rnd<F>(r);
    auto body = bytes(h) + bytes(f);
    auto good = body + crc_bytes<C>(body);
    P    p(h, f);
    auto is = [&](P& q, std::vector<u8> const& want, char const* what) {
        EXPECT(bytes(q.to_array()) == want, "%s: to_array differs", what);
        EXPECT(bytes(q) == want, "%s: memory differs", what);
        P const& c = q;
        EXPECT(bytes(q.header()) + bytes(q.fields()) + bytes(q.crc()) == want, "%s: parts differ", what);
        EXPECT(bytes(c.header()) + bytes(c.fields()) + bytes(c.crc()) == want, "%s: const parts differ", what);
        std::vector<u8> b(want.begin(), want.end() - K), k(want.end() - K, want.end());
        EXPECT(q.valid() == (k == crc_bytes<C>(b)), "%s: valid() is %d", what, (int)q.valid());
        EXPECT(bytes(q) == want, "%s: valid() changed the packet", what);
        q.header();
        EXPECT((u8*)&q.header() == (u8*)&q && (u8*)&q.fields() == (u8*)&q + sizeof(H) && (u8*)&q.crc() == (u8*)&q + sizeof(H) + sizeof(F),
               "%s: the accessors do not refer to the packet", what);
    };
    is(p, good, "constructor");
    EXPECT(p.valid(), "a new packet is not valid");
    EXPECT(bytes(P::serialize(h, f)) == good, "serialize differs");
    typename P::array_type a;
    std::copy(good.begin(), good.end(), a.begin());
    auto bad = good;
    if (r.chance(80)) bad[r.below(L)] ^= (u8)(1u << r.below(8));
    say(" bytes");
    for (auto x : bad) say(" %02x", x);
    typename P::array_type ba;
    std::copy(bad.begin(), bad.end(), ba.begin());
    std::vector<u8> bb(bad.begin(), bad.end() - K), bk(bad.end() - K, bad.end());
    bool const      ok = bk == crc_bytes<C>(bb);
    {
        auto [v, hh, ff] = P::deserialize(ba);
        EXPECT(v == ok, "deserialize reports %d", (int)v);
        EXPECT(bytes(hh) + bytes(ff) == bb, "deserialize returns other parts");
    }
    P q1{std::array<u8, L>(ba)};
    is(q1, bad, "constructor from an array");
    P q2(bad.data());
    is(q2, bad, "constructor from an iterator");
    P q3 = P::deserialize(bad.data());
    is(q3, bad, "deserialize from an iterator");
    u8 out[L + 16], ref[L + 16];
    memset(out, 0x5A, sizeof out);
    memset(ref, 0x5A, sizeof ref);
    memcpy(ref + 8, bad.data(), L);
    P::serialize(q3, out + 8);
    EXPECT(memcmp(out, ref, sizeof out) == 0, "serialize to an iterator differs");
    P z;
    is(z, std::vector<u8>(L, 0), "default constructor");
    H h2 = rnd<H>(r);
    q3.header() = h2;
    is(q3, bytes(h2) + std::vector<u8>(bad.begin() + sizeof(H), bad.end()), "write through header()");
}

template <std::size_t Max, class H, class F, class T, class C>
static void acc(Rng& r)
{
    using Q                 = packet_accessor<Max>;
    constexpr std::size_t K = sizeof(typename C::value_type), B = sizeof(H) + sizeof(F), L = B + K;
    auto box = std::make_unique<Q>();
    Q&   q   = *box;
    say("packet_accessor<%zu> parts %zu,%zu,%zu, element %zu:", Max, sizeof(H), sizeof(F), K, sizeof(T));
    EXPECT(q.size() == 0 && bytes(q.storage()) == std::vector<u8>(Max, 0), "a new accessor is not empty");
    for (int s = 0, n = 1 + (int)r.below(5); s < n; ++s) {
        if (r.chance(50)) {
            std::size_t cap = (Max - L) / sizeof(T);
            std::size_t k   = r.chance(80) ? r.below(cap + 1) : r.chance(50) ? cap + 1 + r.below(4) : r.next();
            std::vector<T> d(std::min<std::size_t>(k, cap + 8));
            for (auto& x : d) x = rnd<T>(r);
            say(" serialize(%zu elements)", k);
            auto h = rnd<H>(r);
            auto f = rnd<F>(r);
            auto before = bytes(q.storage());
            auto size   = q.size();
            std::vector<T> hold = d;
            typename Q::template fields_in<H, F, T> in{h, f, k, d.data()};
            bool ok = q.template serialize<H, F, T, C>(in);
            EXPECT(ok == (k <= cap), "serialize returns %d", (int)ok);
            if (!ok) {
                EXPECT(bytes(q.storage()) == before && q.size() == size, "a refused serialize changed the accessor");
            } else {
                auto body = bytes(h) + bytes(f);
                for (auto& x : hold) body = body + bytes(x);
                auto want = body + crc_bytes<C>(body);
                EXPECT(q.size() == want.size(), "size() is %zu instead of %zu", q.size(), want.size());
                auto all = bytes(q.storage());
                EXPECT(std::equal(want.begin(), want.end(), all.begin()), "serialize stores other bytes");
                EXPECT(std::equal(before.begin() + want.size(), before.end(), all.begin() + want.size()), "serialize writes behind the packet");
            }
        } else {
            if (r.chance(60)) {
                auto v = r.next();
                q.storage()[v % Max] ^= (u8)(v >> 40);
                say(" flip %zu", (std::size_t)(v % Max));
            }
            if (r.chance(50)) {
                std::size_t k = r.chance(80) ? r.below(Max + 4) : r.next();
                say(" size(%zu)", k);
                q.size(k);
                EXPECT(q.size() == k, "size() is not what was set");
            }
        }
        auto before = bytes(q.storage());
        auto n0     = q.size();
        say(" deserialize[size %zu]", n0);
        auto o    = static_cast<Q const&>(q).template deserialize<H, F, T, C>();
        bool fits = n0 >= L && n0 <= Max && (n0 - L) % sizeof(T) == 0;
        if (!fits) {
            EXPECT(!o.valid && o.size == 0 && o.data == nullptr, "deserialize accepts a size that does not fit");
        } else {
            std::vector<u8> body(before.begin(), before.begin() + (n0 - K)), k(before.begin() + (n0 - K), before.begin() + n0);
            EXPECT(o.valid == (k == crc_bytes<C>(body)), "deserialize reports valid=%d", (int)o.valid);
            EXPECT(bytes(o.header) + bytes(o.fields) == std::vector<u8>(before.begin(), before.begin() + B), "deserialize returns other parts");
            EXPECT(o.size == (n0 - L) / sizeof(T) && (u8 const*)o.data == q.storage().data() + B, "deserialize returns another variable part");
            auto p = static_cast<Q const&>(q).template deserialize_no_check<H, F, T, C>();
            EXPECT((u8 const*)p.header == q.storage().data() && (u8 const*)p.fields == q.storage().data() + sizeof(H) && p.size == o.size &&
                       (u8 const*)p.data == q.storage().data() + B, "deserialize_no_check differs");
        }
        EXPECT(bytes(q.storage()) == before && q.size() == n0, "deserialize changed the accessor");
    }
}

void run(std::string const& prop, Rng& r)
{
    if (prop == "C18") {
        if (r.chance(50)) return pkt<H2, F5, Crc>(r);
        return pkt<H3, F22, Crc4>(r);
    }
    switch (r.below(3)) {
    case 0: return acc<32, H2, F5, u8, Crc>(r);
    case 1: return acc<40, H3, F5, T3, Crc4>(r);
    default: return acc<64, H2, F5, std::uint64_t, Crc>(r);
    }
}
