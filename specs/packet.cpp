// Contract entry points for func/packet.hpp.  The checksum is an arbitrary function of the bytes it is given.
#include <xitren/func/packet.hpp>
#include <cstddef>
#include <memory>
#include <new>
#include <utility>
using namespace xitren::func;
using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
extern "C" u16 crc_of(u8 const* b, u8 const* e) noexcept;
extern "C" u32 crc32_of(u8 const* b, u8 const* e) noexcept;
struct Crc {
    using value_type = lsb_t<u16>;
    template <class It>
    static constexpr value_type calculate(It b, It e) noexcept { return value_type{crc_of(std::to_address(b), std::to_address(e))}; }
    template <std::size_t N>
    static constexpr value_type calculate(std::array<u8, N> const& a) noexcept { return calculate(a.begin(), a.end()); }
};
struct Crc4 {
    using value_type = msb_t<u32>;
    template <class It>
    static constexpr value_type calculate(It b, It e) noexcept { return value_type{crc32_of(std::to_address(b), std::to_address(e))}; }
    template <std::size_t N>
    static constexpr value_type calculate(std::array<u8, N> const& a) noexcept { return calculate(a.begin(), a.end()); }
};
struct __attribute__((__packed__)) H2 { u8 magic[2]; };
struct __attribute__((__packed__)) F5 { u8 a; lsb_t<u32> b; };
struct __attribute__((__packed__)) H3 { u8 kind; msb_t<u16> id; };
struct __attribute__((__packed__)) F22 { u8 raw[22]; };
struct __attribute__((__packed__)) T3 { u8 raw[3]; };
#define PACKET(N, H, F, C)                                                      \
    using P##N = packet<H, F, C>;                                               \
    using A##N = std::array<u8, sizeof(P##N)>;                                  \
    extern "C" {                                                                \
    void N##_ctor0(P##N* o) { new (o) P##N(); }                                 \
    void N##_ctor(P##N* o, H const* h, F const* f) { new (o) P##N(*h, *f); }    \
    void N##_ctora(P##N* o, A##N const* a) { new (o) P##N(A##N(*a)); }          \
    void N##_ctori(P##N* o, u8 const* a) { new (o) P##N(a); }                   \
    H* N##_header(P##N* o) { return &o->header(); }                             \
    F* N##_fields(P##N* o) { return &o->fields(); }                             \
    C::value_type* N##_crc(P##N* o) { return &o->crc(); }                       \
    H const* N##_cheader(P##N const* o) { return &o->header(); }                \
    F const* N##_cfields(P##N const* o) { return &o->fields(); }                \
    C::value_type const* N##_ccrc(P##N const* o) { return &o->crc(); }          \
    bool N##_valid(P##N* o) { return o->valid(); }                              \
    void N##_toarray(A##N* a, P##N const* o) { *a = o->to_array(); }            \
    void N##_ser(A##N* a, H const* h, F const* f) { *a = P##N::serialize(*h, *f); } \
    void N##_des(bool* ok, H* h, F* f, A##N const* a) { auto [k, x, y] = P##N::deserialize(*a); *ok = k; *h = x; *f = y; } \
    void N##_desi(P##N* o, u8 const* a) { new (o) P##N(P##N::deserialize(a)); } \
    void N##_seri(P##N const* o, u8* a) { P##N::serialize(*o, a); }             \
    void N##_round(bool* ok, H* h, F* f, H const* h0, F const* f0) { auto [k, x, y] = P##N::deserialize(P##N::serialize(*h0, *f0)); *ok = k; *h = x; *f = y; } \
    bool N##_ctorvalid(H const* h, F const* f) { P##N p(*h, *f); return p.valid(); } \
    }
PACKET(p25, H2, F5, Crc)
PACKET(p34, H3, F22, Crc4)
#define ACC(N, MAX, H, F, T, C)                                                 \
    using Q##N = packet_accessor<MAX>;                                          \
    extern "C" {                                                                \
    void N##_ctor(Q##N* o) { new (o) Q##N(); }                                  \
    u64 N##_size(Q##N const* o) { return o->size(); }                           \
    void N##_setsize(Q##N* o, u64 n) { o->size(n); }                            \
    u8* N##_storage(Q##N* o) { return o->storage().data(); }                    \
    u8 const* N##_cstorage(Q##N const* o) { return o->storage().data(); }       \
    void N##_des(Q##N const* o, H* h, F* f, bool* ok, u64* n, T const** d) {    \
        auto r = o->template deserialize<H, F, T, C>();                         \
        *h = r.header; *f = r.fields; *ok = r.valid; *n = r.size; *d = r.data; } \
    void N##_desn(Q##N const* o, H const** h, F const** f, u64* n, T const** d) { \
        auto r = o->template deserialize_no_check<H, F, T, C>();                \
        *h = r.header; *f = r.fields; *n = r.size; *d = r.data; }               \
    bool N##_ser(Q##N* o, H const* h, F const* f, u64 n, T const* d) {          \
        Q##N::fields_in<H, F, T> in{*h, *f, n, d};                              \
        return o->template serialize<H, F, T, C>(in); }                         \
    }
ACC(a1, 32, H2, F5, u8, Crc)
ACC(a3, 40, H3, F5, T3, Crc4)
ACC(a8, 64, H2, F5, u64, Crc)
