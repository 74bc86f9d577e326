// Contract entry points for func/data.hpp: byte-order types, swap, and data<T>.
#include <xitren/func/data.hpp>
#include <new>
#include <cstddef>
using namespace xitren::func;
using u8  = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
#define ORDER(K, N)                                                            \
    void K##N##_ctor(K##_t<u##N>* o, u##N const* v) { new (o) K##_t<u##N>(*v); } \
    void K##N##_ctorm(K##_t<u##N>* o, u##N const v) { new (o) K##_t<u##N>(static_cast<u##N const&&>(v)); } \
    void K##N##_ctor0(K##_t<u##N>* o) { new (o) K##_t<u##N>(); }                 \
    K##_t<u##N>* K##N##_assign(K##_t<u##N>* o, u##N v) { return &(*o = v); }     \
    u##N K##N##_get(K##_t<u##N> const* o) { return o->get(); }                   \
    bool K##N##_eq(K##_t<u##N>* a, K##_t<u##N>* b) { return *a == *b; }          \
    bool K##N##_lt(K##_t<u##N>* a, K##_t<u##N>* b) { return *a < *b; }           \
    bool K##N##_gt(K##_t<u##N>* a, K##_t<u##N>* b) { return *a > *b; }           \
    bool K##N##_le(K##_t<u##N>* a, K##_t<u##N>* b) { return *a <= *b; }          \
    bool K##N##_ge(K##_t<u##N>* a, K##_t<u##N>* b) { return *a >= *b; }          \
    u64 K##N##_size() { return sizeof(K##_t<u##N>) * 256 + alignof(K##_t<u##N>); }
struct __attribute__((__packed__)) P7 {
    u8          a;
    lsb_t<u32>  b;
    msb_t<u16>  c;
};
struct __attribute__((__packed__)) P64 {
    u8 raw[64];
};
template <class T>
struct It {};
#define DATA(N, T)                                                             \
    void N##_des(T* r, u8 const* p) { *r = data<T>::deserialize(p); }          \
    void N##_ser(std::array<u8, sizeof(T)>* r, T const* v) { *r = data<T>::serialize(*v); } \
    void N##_seri(T const* v, u8* p) { data<T>::serialize(*v, p); }            \
    void N##_round(T* r, T const* v) { auto a = data<T>::serialize(*v); *r = data<T>::deserialize(a.begin()); } \
    void N##_roundi(T* r, T const* v, u8* p) { data<T>::serialize(*v, p); *r = data<T>::deserialize(p); } \
    void N##_pure(std::array<u8, sizeof(T)>* r, T const* v) { data<T> d{*v}; *r = d.pure; }
extern "C" {
ORDER(lsb, 16)
ORDER(lsb, 32)
ORDER(lsb, 64)
ORDER(msb, 16)
ORDER(msb, 32)
ORDER(msb, 64)
u16 swap16(u16 v) { return swap(v); }
u32 swap32(u32 v) { return swap(v); }
u64 swap64(u64 v) { return swap(v); }
DATA(d1, u8)
DATA(d2, u16)
DATA(d4, u32)
DATA(d8, u64)
DATA(d7, P7)
DATA(d64, P64)
}
