// Entry points for the rules about the resources and copies of vecmem::cuda
// and vecmem::hip (compiled once for each).
#ifdef V_CUDA
#include "vecmem/memory/cuda/device_memory_resource.hpp"
#include "vecmem/memory/cuda/host_memory_resource.hpp"
#include "vecmem/memory/cuda/managed_memory_resource.hpp"
#include "vecmem/utils/cuda/async_copy.hpp"
#include "vecmem/utils/cuda/copy.hpp"
#include "vecmem/utils/cuda/stream_wrapper.hpp"
namespace gpu = vecmem::cuda;
#else
#include "vecmem/memory/hip/device_memory_resource.hpp"
#include "vecmem/memory/hip/host_memory_resource.hpp"
#include "vecmem/memory/hip/managed_memory_resource.hpp"
#include "vecmem/utils/hip/copy.hpp"
namespace gpu = vecmem::hip;
#endif
using std::size_t;
using ctype = vecmem::copy::type::copy_type;

extern "C" {
void* vp_k_allocate_device(int d, size_t n, size_t a) {
    gpu::device_memory_resource r(d);
    return r.do_allocate(n, a);
}
void vp_k_deallocate_device(int d, void* p, size_t n, size_t a) {
    gpu::device_memory_resource r(d);
    r.do_deallocate(p, n, a);
}
bool vp_k_equal_device(int d, int e) {
    gpu::device_memory_resource r(d), s(e);
    return r.do_is_equal(s);
}
#define RES(K)                                              \
    void* vp_k_allocate_##K(size_t n, size_t a) {           \
        gpu::K##_memory_resource r;                         \
        return r.do_allocate(n, a);                         \
    }                                                       \
    void vp_k_deallocate_##K(void* p, size_t n, size_t a) { \
        gpu::K##_memory_resource r;                         \
        r.do_deallocate(p, n, a);                           \
    }                                                       \
    bool vp_k_equal_##K() {                                 \
        gpu::K##_memory_resource r, s;                      \
        return r.do_is_equal(s);                            \
    }
RES(host)
RES(managed)

bool vp_k_equal_device_host(int d) {
    gpu::device_memory_resource r(d);
    gpu::host_memory_resource s;
    return r.do_is_equal(s);
}
bool vp_k_equal_host_managed() {
    gpu::host_memory_resource r;
    gpu::managed_memory_resource s;
    return r.do_is_equal(s);
}
bool vp_k_equal_managed_device(int d) {
    gpu::managed_memory_resource r;
    gpu::device_memory_resource s(d);
    return r.do_is_equal(s);
}

#define COPY(T)                                                    \
    void vp_k_copy_##T(size_t n, const void* f, void* t) {         \
        gpu::copy c;                                               \
        c.do_copy(n, f, t, vecmem::copy::type::T);                 \
    }
COPY(host_to_device)
COPY(device_to_host)
COPY(host_to_host)
COPY(device_to_device)
COPY(unknown)
void vp_k_memset(size_t n, void* p, int v) {
    gpu::copy c;
    c.do_memset(n, p, v);
}

#ifdef V_CUDA
#define ACOPY(T)                                                       \
    void vp_k_acopy_##T(size_t n, const void* f, void* t, void* s) {   \
        gpu::async_copy c{gpu::stream_wrapper(s)};                     \
        c.do_copy(n, f, t, vecmem::copy::type::T);                     \
    }
ACOPY(host_to_device)
ACOPY(device_to_host)
ACOPY(host_to_host)
ACOPY(device_to_device)
ACOPY(unknown)
void vp_k_amemset(size_t n, void* p, int v, void* s) {
    gpu::async_copy c{gpu::stream_wrapper(s)};
    c.do_memset(n, p, v);
}
void vp_k_amemset_own(size_t n, void* p, int v, int d) {
    gpu::async_copy c{gpu::stream_wrapper(d)};
    c.do_memset(n, p, v);
}
void vp_k_event_drop(void* s) {
    gpu::async_copy c{gpu::stream_wrapper(s)};
    auto e = c.create_event();
}
void vp_k_event_wait(void* s) {
    gpu::async_copy c{gpu::stream_wrapper(s)};
    auto e = c.create_event();
    e->wait();
    e->wait();
}
void vp_k_event_ignore(void* s) {
    gpu::async_copy c{gpu::stream_wrapper(s)};
    auto e = c.create_event();
    e->ignore();
    e->ignore();
    e->wait();
}
void* vp_k_stream_own(int d) {
    gpu::stream_wrapper s(d);
    s.synchronize();
    return s.stream();
}
void* vp_k_stream_given(void* g) {
    gpu::stream_wrapper s(g);
    s.synchronize();
    return s.stream();
}
void* vp_k_stream_copied(int d) {
    gpu::stream_wrapper s(d);
    gpu::stream_wrapper t(s);
    return t.stream();
}
void* vp_k_stream_assigned(int d, void* g) {
    gpu::stream_wrapper t(g);
    {
        gpu::stream_wrapper s(d);
        t = s;
    }
    t.synchronize();
    return t.stream();
}
void* vp_k_stream_moved(int d, void* g) {
    gpu::stream_wrapper t(g);
    {
        gpu::stream_wrapper s(d);
        t = std::move(s);
    }
    t.synchronize();
    return t.stream();
}
void* vp_k_stream_made_by_move(int d) {
    gpu::stream_wrapper s(d);
    gpu::stream_wrapper t(std::move(s));
    return t.stream();
}
#endif
}
