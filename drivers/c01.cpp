// FLAGS: -DNDEBUG
#include <cstddef>
#include <cstdint>
#include <memory>
#include <utility>
#include <span>
#include <kelcoro/stack_memory_resource.hpp>
using namespace dd;
extern "C" {
size_t drv_size() { return sizeof(stack_resource); }
void drv_ctor(stack_resource* r, unsigned char* p, size_t n) { new (r) stack_resource(std::span<unsigned char>(p, n)); }
void drv_ctor0(stack_resource* r) { new (r) stack_resource(); }
void drv_dtor(stack_resource* r) { r->~stack_resource(); }
void* drv_alloc(stack_resource* r, size_t n) { return r->allocate(n); }
void drv_dealloc(stack_resource* r, void* p, size_t n) { r->deallocate(p, n); }
void drv_reuse(stack_resource* r) { r->reuse_memory(); }
void drv_move(stack_resource* d, stack_resource* s) { new (d) stack_resource(std::move(*s)); }
void drv_assign(stack_resource* d, stack_resource* s) { *d = std::move(*s); }
void drv_nop() {}
}
