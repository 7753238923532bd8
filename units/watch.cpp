// Accessors to the members of recorded events.
#include "vecmem/memory/instrumenting_memory_resource.hpp"
#include <cstddef>
#include <new>

using E = vecmem::instrumenting_memory_resource::memory_event;
extern "C" int vp_event_type(const E& e) {
    return static_cast<int>(e.m_type);
}
extern "C" std::size_t vp_event_size(const E& e) {
    return e.m_size;
}
extern "C" std::size_t vp_event_align(const E& e) {
    return e.m_align;
}
extern "C" void* vp_event_ptr(const E& e) {
    return e.m_ptr;
}
extern "C" std::size_t vp_event_time(const E& e) {
    return e.m_time;
}
extern "C" int vp_type_allocation() {
    return static_cast<int>(E::type::ALLOCATION);
}
extern "C" int vp_type_deallocation() {
    return static_cast<int>(E::type::DEALLOCATION);
}
extern "C" void vp_make_event(void* where, E::type t, std::size_t s,
                              std::size_t a, void* p, std::size_t ns) {
    new (where) E(t, s, a, p, ns);
}
