// Contract entry points for comm/values: one wrapper per public operation.
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>
#include <xitren/comm/values/observable.hpp>
using namespace xitren::comm;
#ifndef MAX
#define MAX 8
#endif
#ifndef VT
#define VT int
#endif
using T  = VT;
using OS = values::observable<T, MAX>;
using OD = values::observable<T, 0>;
using Ob = values::observed<T>;
#define OPS(p, O)                                                  \
    int  p##_add(O* o, Ob* x) { return (int)o->add_observer(*x); } \
    int  p##_remove(O* o, Ob* x) { return (int)o->remove_observer(*x); } \
    void p##_clear(O* o) { o->clear_observers(); }                 \
    int  p##_notify(O* o, T const* n) { return (int)o->notify_observers(*n); } \
    void p##_ctor(O* o) { new (o) O(); }                           \
    void p##_dtor(O* o) { o->O::~O(); }                            \
    T    p##_value(O* o) { return o->value(); }                    \
    T    p##_postinc(O* o) { return (*o)++; }                      \
    T    p##_postdec(O* o) { return (*o)--; }                      \
    T    p##_preinc(O* o) { return ++*o; }                         \
    T    p##_predec(O* o) { return --*o; }                         \
    T    p##_pluseq(O* o, int v) { return *o += v; }               \
    T    p##_minuseq(O* o, int v) { return *o -= v; }              \
    T    p##_assign(O* o, T v) { return *o = v; }
extern "C" {
OPS(s, OS)
OPS(d, OD)
void p_notify(Ob* x, void const* src, T const* n) { x->notification(src, *n); }
void p_disconnect(Ob* x, void const* src) { x->disconnect(src); }
}
