// Contract entry points for comm/values/observed.hpp.
#include <xitren/comm/values/observed.hpp>
using namespace xitren::comm;
#ifndef VT
#define VT int
#endif
using T = VT;
using O = values::observed<T>;
using F = std::function<void(T const)>;
extern "C" {
void o_ctor0(O* o) { new (o) O(); }
void o_ctorf(O* o, F* f) { new (o) O(*f); }
void o_update(O* o, F* f) { o->on_update(*f); }
T    o_value(O* o) { return o->value(); }
void o_notification(O* o, void const* src, T const* v) { o->notification(src, *v); }
void o_dtor(O* o) { o->O::~O(); }
void o_disconnect(O* o, void const* src) { o->O::disconnect(src); }
}
