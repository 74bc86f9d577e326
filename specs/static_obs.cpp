// Contract entry points for comm/observer_static.hpp.
#include <xitren/comm/observer_static.hpp>
using namespace xitren::comm;
using D = int;
struct Pad { long pad[3]; };
struct A : observer<D, A> { int n; void notification_impl(observable_impl<D> const& src, D const& d) noexcept; };
struct B : Pad, observer<D, B> { int n; void notification_impl(observable_impl<D> const& src, D const& d) noexcept; };
struct C : observer<D, C> { int n; void notification_impl(observable_impl<D> const& src, D const& d) noexcept; };
using O1 = observable<D, A>;
using O2 = observable<D, B, A>;
using O3 = observable<D, A, B, C>;
using O4 = observable<D, A, B, A, C>;
using O6 = observable<D, C, B, A, A, B, C>;
extern "C" {
void root_is(void const* r);
// n notifications in a row
#define RUN(O)                       \
    {                                \
        root_is(&o.root);            \
        for (unsigned long i = 0; i < n; ++i) o.notify(*d); \
    }
void run1(A* a, D const* d, unsigned long n) { O1 o(*a); RUN(O1) }
void run2(B* a, A* b, D const* d, unsigned long n) { O2 o(*a, *b); RUN(O2) }
void run3(A* a, B* b, C* c, D const* d, unsigned long n) { O3 o(*a, *b, *c); RUN(O3) }
void run4(A* a, B* b, A* c, C* e, D const* d, unsigned long n) { O4 o(*a, *b, *c, *e); RUN(O4) }
void run6(C* a, B* b, A* c, A* e, B* f, C* g, D const* d, unsigned long n) { O6 o(*a, *b, *c, *e, *f, *g); RUN(O6) }
}
