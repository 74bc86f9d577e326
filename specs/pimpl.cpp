// Contract entry points for func/fast_pimpl.hpp: every operation on the managed object is an observable event.
#include <xitren/func/fast_pimpl.hpp>
#include <cstddef>
using namespace xitren::func;
struct Impl {
    long d[2];
    Impl();
    Impl(int, long const&);
    Impl(Impl const&);
    Impl(Impl&&);
    Impl& operator=(Impl const&);
    Impl& operator=(Impl&&);
    ~Impl();
};
struct alignas(32) Big {
    char d[96];
    Big();
    Big(int, long const&);
    Big(Big const&);
    Big(Big&&);
    Big& operator=(Big const&);
    Big& operator=(Big&&);
    ~Big();
};
#define PIMPL(N, T, S, AL, ST)                                                  \
    using P##N = fast_pimpl<T, S, AL, ST>;                                      \
    extern "C" {                                                                \
    void N##_ctor0(P##N* o) { new (o) P##N(); }                                 \
    void N##_ctor2(P##N* o, int a, long const* b) { new (o) P##N(a, *b); }       \
    void N##_copy(P##N* o, P##N const* r) { new (o) P##N(*r); }                 \
    void N##_copyn(P##N* o, P##N* r) { new (o) P##N(*r); }                      \
    void N##_move(P##N* o, P##N* r) { new (o) P##N(std::move(*r)); }            \
    P##N* N##_assign(P##N* o, P##N const* r) { return &(*o = *r); }             \
    P##N* N##_massign(P##N* o, P##N* r) { return &(*o = std::move(*r)); }       \
    void N##_dtor(P##N* o) { o->~P##N(); }                                      \
    T* N##_arrow(P##N* o) { return o->operator->(); }                           \
    T const* N##_carrow(P##N const* o) { return o->operator->(); }              \
    T* N##_star(P##N* o) { return &**o; }                                       \
    T const* N##_cstar(P##N const* o) { return &**o; }                          \
    void N##_life(int a, long const* b) { P##N x(a, *b); P##N y(x); y = x; }     \
    unsigned long N##_layout() { return sizeof(P##N) * 4096 + alignof(P##N); }  \
    }
PIMPL(i, Impl, 16, 8, true)
PIMPL(j, Impl, 40, 16, false)
PIMPL(b, Big, 96, 32, true)
