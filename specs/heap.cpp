// Contract entry points for allocators/static_heap.hpp.
#include <xitren/allocators/static_heap.hpp>
#include <new>
using namespace xitren::allocators;
#ifndef SIZE
#define SIZE 1000
#endif
using H  = static_heap<SIZE>;
using sz = std::size_t;
extern "C" {
void  h_ctor(H* h) { new (h) H(); }
void* h_allocate(H* h, sz n) { return h->allocate(n); }
void* h_callocate(H* h, sz n, sz k) { return h->callocate(n, k); }
void  h_deallocate(H* h, void* p) { h->deallocate(p); }
sz    h_free(H const* h) { return h->free_heap_size(); }
sz    h_min(H const* h) { return h->minimum_ever_free_heap_size(); }
void  h_reset(H* h) { h->reset_minimum_ever_free_heap_size(); }
void  h_onfail(H* h, std::function<void(void)>* f) { h->on_fail(*f); }
}
