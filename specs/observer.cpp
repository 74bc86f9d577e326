// Contract entry points: one wrapper per public operation; the verified text is the real header code it inlines.
#include <xitren/comm/observer.hpp>
using namespace xitren::comm;
#ifndef MAX
#define MAX 8
#endif
using T  = int;
using OS = observable<T, true, MAX>;
using OD = observable<T, false, 0>;
using Ob = observer<T>;
extern "C" {
int  s_add(OS* o, Ob* x) { return (int)o->add_observer(*x); }
int  s_remove(OS* o, Ob* x) { return (int)o->remove_observer(*x); }
void s_clear(OS* o) { o->clear_observers(); }
int  s_notify(OS* o, T const* n) { return (int)o->notify_observers(*n); }
void s_ctor(OS* o) { new (o) OS(); }
void s_dtor(OS* o) { o->OS::~OS(); }
void d_add(OD* o, Ob* x) { o->add_observer(*x); }
void d_remove(OD* o, Ob* x) { o->remove_observer(*x); }
void d_clear(OD* o) { o->clear_observers(); }
void d_notify(OD* o, T const* n) { o->notify_observers(*n); }
void d_ctor(OD* o) { new (o) OD(); }
void d_dtor(OD* o) { o->OD::~OD(); }
// what "x is notified with value *n by source o" / "x is told that o disconnects" compile to
void p_data(Ob* x, void const* src, T const* n) { x->data(src, *n); }
void p_notification(Ob* x, void const* src, T const* n) { x->notification(src, *n); }
void p_throw(int e) { throw OD::exception{(observer_errors)e}; }
void p_disconnect(Ob* x, void const* src) { x->disconnect(src); }
}
