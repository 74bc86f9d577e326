// Contract entry points for allocators/static_heap_allocator.hpp.
#include <xitren/allocators/static_heap_allocator.hpp>
#include <memory>
#include <new>
using namespace xitren::allocators;
#ifndef SIZE
#define SIZE 1000
#endif
#ifndef BYTES
#define BYTES 4
#endif
struct elem { unsigned char bytes[BYTES]; };
using H  = static_heap<SIZE>;
using A  = static_heap_allocator<elem, SIZE>;
using T  = std::allocator_traits<A>;
using R  = T::rebind_alloc<long>;
using sz = std::size_t;
extern "C" {
void  a_ctor(A* a, H* h) { new (a) A(*h); }
void  a_copy(A* a, A const* b) { new (a) A(*b); }
void  a_move(A* a, A* b) { new (a) A(std::move(*b)); }
void  a_rebind(R* a, A const* b) { new (a) R(*b); }
void  a_select(A* a, A const* b) { new (a) A(T::select_on_container_copy_construction(*b)); }
void* a_allocate(A* a, sz n) { return T::allocate(*a, n); }
void  a_deallocate(A* a, elem* p, sz n) { T::deallocate(*a, p, n); }
bool  a_eq(A const* a, A const* b) { return *a == *b; }
bool  a_ne(A const* a, A const* b) { return *a != *b; }
bool  a_eqr(A const* a, R const* b) { return *a == *b; }
}
