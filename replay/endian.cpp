// Concrete contract oracle for func/data.hpp: byte-order types (C16) and byte-exact conversion (C17).
#include "common.hpp"
#include <cstddef>
#include <list>
#include <new>
#include <vector>
#include <algorithm>
#include <xitren/func/data.hpp>
using namespace xitren::func;
using u8 = std::uint8_t;

template <class T>
static T pick(Rng& r)
{
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return (T)~(T)0;
    case 2: return (T)1 << r.below(8 * sizeof(T));
    case 3: return (T)r.below(300);
    default: return (T)r.next();
    }
}
template <class T, template <class> class K, bool Big>
static void order(Rng& r)
{
    using O = K<T>;
    T v = pick<T>(r), w = r.chance(30) ? v : pick<T>(r);
    say("%s_t<u%zu>(%llx, %llx)", Big ? "msb" : "lsb", 8 * sizeof(T), (unsigned long long)v, (unsigned long long)w);
    auto layout = [&](O const& o, T x, char const* what) {
        u8 b[sizeof(O)];
        memcpy(b, &o, sizeof o);
        for (std::size_t i = 0; i < sizeof(T); ++i) {
            u8 e = (u8)(x >> (8 * (Big ? sizeof(T) - 1 - i : i)));
            EXPECT(b[i] == e, "%s: byte %zu in memory is %02x instead of %02x", what, i, b[i], e);
        }
        EXPECT(o.get() == x, "%s: get() returns %llx", what, (unsigned long long)o.get());
    };
    EXPECT(sizeof(O) == sizeof(T) && alignof(O) == 1, "size or alignment");
    O a(v);
    layout(a, v, "constructor");
    O b(static_cast<T const&&>(w));
    layout(b, w, "constructor from an rvalue");
    O z;
    layout(z, 0, "default constructor");
    O& ret = (z = v);
    EXPECT(&ret == &z, "assignment returns another object");
    layout(z, v, "assignment");
    EXPECT((a == b) == (v == w), "==");
    EXPECT((a < b) == (v < w), "<");
    EXPECT((a > b) == (v > w), ">");
    EXPECT((a <= b) == (v <= w), "<=");
    EXPECT((a >= b) == (v >= w), ">=");
    layout(a, v, "after comparing");
    T sw = 0;
    for (std::size_t i = 0; i < sizeof(T); ++i) sw |= (T)((T)(u8)(v >> (8 * i)) << (8 * (sizeof(T) - 1 - i)));
    EXPECT(swap(v) == sw, "swap returns %llx", (unsigned long long)swap(v));
    EXPECT(is_lsb(), "is_lsb() is false on a little-endian machine");
}

struct __attribute__((__packed__)) P7 { u8 a; lsb_t<std::uint32_t> b; msb_t<std::uint16_t> c; };
struct __attribute__((__packed__)) P64 { u8 raw[64]; };
template <class T>
static void conv(Rng& r)
{
    constexpr std::size_t N = sizeof(T);
    u8                    in[N + 16];
    for (auto& x : in) x = (u8)r.next();
    say("data<%zu bytes>:", N);
    for (std::size_t i = 0; i < N; ++i) say(" %02x", in[i]);
    T v;
    memcpy((void*)&v, in, N);
    auto same = [&](auto const& t, char const* what) {
        static_assert(sizeof t == N);
        EXPECT(memcmp((void const*)&t, in, N) == 0, "%s: other bytes", what);
    };
    same(data<T>::serialize(v), "serialize");
    same(data<T>::deserialize(in), "deserialize");
    same(data<T>::deserialize(data<T>::serialize(v).begin()), "round trip");
    std::vector<u8> vec(in, in + N);
    same(data<T>::deserialize(vec.begin()), "deserialize from a vector");
    u8 out[N + 16], ref[N + 16];
    memset(out, 0xA5, sizeof out);
    memset(ref, 0xA5, sizeof ref);
    memcpy(ref + 8, in, N);
    data<T>::serialize(v, out + 8);
    EXPECT(memcmp(out, ref, sizeof out) == 0, "serialize to an iterator writes other bytes");
    data<T> d{v};
    same(d.pure, "pure");
}

void run(std::string const& prop, Rng& r)
{
    if (prop == "C16") {
        switch (r.below(6)) {
        case 0: return order<std::uint16_t, lsb_t, false>(r);
        case 1: return order<std::uint32_t, lsb_t, false>(r);
        case 2: return order<std::uint64_t, lsb_t, false>(r);
        case 3: return order<std::uint16_t, msb_t, true>(r);
        case 4: return order<std::uint32_t, msb_t, true>(r);
        default: return order<std::uint64_t, msb_t, true>(r);
        }
    }
    switch (r.below(6)) {
    case 0: return conv<u8>(r);
    case 1: return conv<std::uint16_t>(r);
    case 2: return conv<std::uint32_t>(r);
    case 3: return conv<std::uint64_t>(r);
    case 4: return conv<P7>(r);
    default: return conv<P64>(r);
    }
}
