// Entry points for the rules about vecmem::sycl.
#include "vecmem/memory/sycl/device_memory_resource.hpp"
#include "vecmem/memory/sycl/host_memory_resource.hpp"
#include "vecmem/memory/sycl/shared_memory_resource.hpp"
#include "vecmem/utils/sycl/async_copy.hpp"
#include "vecmem/utils/sycl/copy.hpp"
#include "vecmem/utils/sycl/queue_wrapper.hpp"

#include <utility>

namespace gpu = vecmem::sycl;
using std::size_t;
using W = gpu::queue_wrapper;

extern "C" {
// "This queue is used now."
void vp_use(const void* queue) noexcept;

// Queue wrappers. What is used, in order: 0 the given one, 1 the first made.
void vp_k_queue_given(void* g) {
    W w(g);
    vp_use(w.queue());
}
void vp_k_queue_made(void*) {
    W w;
    vp_use(w.queue());
}
void vp_k_queue_const(void*) {
    const W w;
    vp_use(w.queue());
}
void vp_k_queue_given_copied(void* g) {
    W w(g), c(w);
    vp_use(w.queue());
    vp_use(c.queue());
}
void vp_k_queue_given_moved(void* g) {
    W w(g), c(std::move(w));
    vp_use(c.queue());
}
void vp_k_queue_made_copied(void*) {
    W* w = new W;
    W c(*w);
    delete w;
    vp_use(c.queue());
}
void vp_k_queue_made_moved(void*) {
    W* w = new W;
    W c(std::move(*w));
    delete w;
    vp_use(c.queue());
}
void vp_k_queue_given_from_made(void* g) {
    W t(g);
    {
        W s;
        t = s;
    }
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
}
void vp_k_queue_given_from_made_moved(void* g) {
    W t(g);
    {
        W s;
        t = std::move(s);
    }
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
}
void vp_k_queue_made_from_given(void* g) {
    W t, s(g);
    vp_use(t.queue());
    t = s;
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
    W d(std::move(t));
    vp_use(d.queue());
}
void vp_k_queue_made_from_given_moved(void* g) {
    W t, s(g);
    vp_use(t.queue());
    t = std::move(s);
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
    W d(std::move(t));
    vp_use(d.queue());
}
void vp_k_queue_made_from_made(void*) {
    W t;
    vp_use(t.queue());
    {
        W s;
        t = s;
    }
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
}
void vp_k_queue_made_from_made_moved(void*) {
    W t;
    vp_use(t.queue());
    {
        W s;
        t = std::move(s);
    }
    vp_use(t.queue());
    W c(t);
    vp_use(c.queue());
}
void vp_k_queue_given_from_given(void* g, void* h) {
    W t(g), s(h);
    t = s;
    vp_use(t.queue());
}
void vp_k_queue_own(void*) {
    W t;
    W& u = t;
    t = u;
    vp_use(t.queue());
    t = std::move(u);
    vp_use(t.queue());
}

// Resources.
#define RES(K)                                                       \
    void* vp_k_allocate_##K(size_t n, size_t a, void* q) {           \
        gpu::K##_memory_resource r{W(q)};                            \
        return r.do_allocate(n, a);                                  \
    }                                                                \
    void* vp_k_allocate_own_##K(size_t n, size_t a) {                \
        gpu::K##_memory_resource r;                                  \
        return r.do_allocate(n, a);                                  \
    }                                                                \
    void vp_k_deallocate_##K(void* p, size_t n, size_t a, void* q) { \
        gpu::K##_memory_resource r{W(q)};                            \
        r.do_deallocate(p, n, a);                                    \
    }                                                                \
    bool vp_k_equal_##K(void* q, void* s) {                          \
        gpu::K##_memory_resource r{W(q)}, t{W(s)};                   \
        return r.do_is_equal(t);                                     \
    }
RES(device)
RES(host)
RES(shared)

// Copies.
void vp_k_copy(size_t n, const void* f, void* t, void* q) {
    gpu::copy c{W(q)};
    c.do_copy(n, f, t, vecmem::copy::type::unknown);
}
void vp_k_memset(size_t n, void* p, int v, void* q) {
    gpu::copy c{W(q)};
    c.do_memset(n, p, v);
}
void vp_k_memset_own(size_t n, void* p, int v) {
    gpu::copy c{W()};
    c.do_memset(n, p, v);
}
void vp_k_async_drop(size_t n, const void* f, void* t, void* q) {
    gpu::async_copy c{W(q)};
    c.do_copy(n, f, t, vecmem::copy::type::unknown);
    auto e = c.create_event();
}
void vp_k_async_wait(size_t n, const void* f, void* t, void* q) {
    gpu::async_copy c{W(q)};
    c.do_copy(n, f, t, vecmem::copy::type::unknown);
    c.do_memset(n, t, 1);
    auto e = c.create_event();
    e->wait();
}
void vp_k_async_ignore(size_t n, const void* f, void* t, void* q) {
    gpu::async_copy c{W(q)};
    c.do_copy(n, f, t, vecmem::copy::type::unknown);
    auto e = c.create_event();
    e->ignore();
}
void vp_k_async_twice(size_t n, const void* f, void* t, void* q) {
    gpu::async_copy c{W(q)};
    c.do_copy(n, f, t, vecmem::copy::type::unknown);
    c.create_event()->ignore();
    c.do_memset(n, t, 1);
    auto e = c.create_event();
    e->wait();
}
}
