// Entry points for the analysis of atomic references. Never executed.
// One of V_SELECTED, V_POSIX, V_DUMMY, V_CUDA, V_SYCL, V_SYCL_LOCAL, V_ATOMIC,
// V_ATOMIC_CUDA, V_ATOMIC_SYCL says which of them.
#include <cstddef>
#include <cstdint>

#if defined(V_CUDA) || defined(V_ATOMIC_CUDA)
// What the device functions do, after the CUDA programming guide.
template <class T>
inline T atomicAdd(T* p, T v) {
    return __atomic_fetch_add(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicSub(T* p, T v) {
    return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicExch(T* p, T v) {
    return __atomic_exchange_n(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicAnd(T* p, T v) {
    return __atomic_fetch_and(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicOr(T* p, T v) {
    return __atomic_fetch_or(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicXor(T* p, T v) {
    return __atomic_fetch_xor(p, v, __ATOMIC_RELAXED);
}
template <class T>
inline T atomicCAS(T* p, T c, T v) {
    __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_RELAXED,
                                __ATOMIC_RELAXED);
    return c;
}
inline void __threadfence() {
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
#define __VECMEM_THREADFENCE __threadfence()
#endif

#if defined(V_POSIX)
#include "vecmem/memory/details/posix_device_atomic_ref.hpp"
template <class T>
using R = vecmem::posix_device_atomic_ref<T>;
#elif defined(V_DUMMY)
#include "vecmem/memory/details/dummy_device_atomic_ref.hpp"
template <class T>
using R = vecmem::dummy_device_atomic_ref<T>;
#elif defined(V_CUDA)
#include "vecmem/memory/details/cuda_device_atomic_ref.hpp"
template <class T>
using R = vecmem::cuda::device_atomic_ref<T>;
#elif defined(V_SYCL)
#include "vecmem/memory/details/sycl_custom_device_atomic_ref.hpp"
template <class T>
using R = vecmem::sycl::custom_device_atomic_ref<T>;
#elif defined(V_SYCL_LOCAL)
#include "vecmem/memory/details/sycl_custom_device_atomic_ref.hpp"
template <class T>
using R = vecmem::sycl::custom_device_atomic_ref<
    T, vecmem::device_address_space::local>;
#elif defined(V_SELECTED)
#include "vecmem/memory/device_atomic_ref.hpp"
template <class T>
using R = vecmem::device_atomic_ref<T>;
#else
#if defined(V_ATOMIC_CUDA)
#include "vecmem/memory/memory_order.hpp"
#include "vecmem/utils/types.hpp"
#include <type_traits>
#define __CUDA_ARCH__ 700
#elif defined(V_ATOMIC_SYCL)
#include "vecmem/memory/memory_order.hpp"
#include "vecmem/utils/types.hpp"
#include <type_traits>
#define SYCL_LANGUAGE_VERSION 202000
#endif
#include "vecmem/memory/atomic.hpp"
template <class T>
struct R {
    vecmem::atomic<T> a;
    explicit R(T& x) : a(&x) {}
};
#define NO_ORDERS
#endif

#define OPS(T, N)                                                          \
    extern "C" void vp_store__##N(T* p, T v) { R<T> r(*p); r A store(v); } \
    extern "C" T vp_load__##N(T* p) { R<T> r(*p); return r A load(); }     \
    extern "C" T vp_exchange__##N(T* p, T v) {                             \
        R<T> r(*p); return r A exchange(v);                                \
    }                                                                      \
    extern "C" bool vp_cas__##N(T* p, T v, T* e) {                         \
        R<T> r(*p); return r A compare_exchange_strong(*e, v);             \
    }                                                                      \
    extern "C" T vp_add__##N(T* p, T v) { R<T> r(*p); return r A fetch_add(v); } \
    extern "C" T vp_sub__##N(T* p, T v) { R<T> r(*p); return r A fetch_sub(v); } \
    extern "C" T vp_and__##N(T* p, T v) { R<T> r(*p); return r A fetch_and(v); } \
    extern "C" T vp_or__##N(T* p, T v) { R<T> r(*p); return r A fetch_or(v); }   \
    extern "C" T vp_xor__##N(T* p, T v) { R<T> r(*p); return r A fetch_xor(v); }

#ifdef NO_ORDERS
#define A .a.
#else
#define A .
#endif
OPS(std::uint32_t, u32)
OPS(std::uint64_t, u64)
OPS(std::int32_t, i32)

#ifndef NO_ORDERS
typedef vecmem::memory_order MO;
#define ASSIGN(T, N)                                                      \
    extern "C" T vp_assign__##N(T* p, T v) { R<T> r(*p); return r = v; }  \
    extern "C" T vp_copied__##N(T* p, T v) {                              \
        R<T> r(*p); R<T> s(r); return s.fetch_add(v);                     \
    }
ASSIGN(std::uint32_t, u32)
ASSIGN(std::uint64_t, u64)
#define RMW(T, N, ORD)                                                      \
    extern "C" T vp_exchange_##ORD##_##N(T* p, T v) {                       \
        R<T> r(*p); return r.exchange(v, O::ORD);                           \
    }                                                                       \
    extern "C" T vp_add_##ORD##_##N(T* p, T v) {                            \
        R<T> r(*p); return r.fetch_add(v, O::ORD);                          \
    }                                                                       \
    extern "C" T vp_sub_##ORD##_##N(T* p, T v) {                            \
        R<T> r(*p); return r.fetch_sub(v, O::ORD);                          \
    }                                                                       \
    extern "C" T vp_and_##ORD##_##N(T* p, T v) {                            \
        R<T> r(*p); return r.fetch_and(v, O::ORD);                          \
    }                                                                       \
    extern "C" T vp_or_##ORD##_##N(T* p, T v) {                             \
        R<T> r(*p); return r.fetch_or(v, O::ORD);                           \
    }                                                                       \
    extern "C" T vp_xor_##ORD##_##N(T* p, T v) {                            \
        R<T> r(*p); return r.fetch_xor(v, O::ORD);                          \
    }                                                                       \
    extern "C" bool vp_cas_##ORD##_##N(T* p, T v, T* e) {                   \
        R<T> r(*p); return r.compare_exchange_strong(*e, v, O::ORD);        \
    }
#define CAS2(T, N, S, F)                                                    \
    extern "C" bool vp_cas_##S##__##F##_##N(T* p, T v, T* e) {              \
        R<T> r(*p); return r.compare_exchange_strong(*e, v, O::S, O::F);    \
    }
#define STORE(T, N, ORD)                                                    \
    extern "C" void vp_store_##ORD##_##N(T* p, T v) {                       \
        R<T> r(*p); r.store(v, O::ORD);                                     \
    }
#define LOAD(T, N, ORD)                                                     \
    extern "C" T vp_load_##ORD##_##N(T* p) {                                \
        R<T> r(*p); return r.load(O::ORD);                                  \
    }
#define ALL(T, N)                                                           \
    RMW(T, N, relaxed) RMW(T, N, acquire) RMW(T, N, release)                \
    RMW(T, N, acqrel) RMW(T, N, seqcst)                                     \
    STORE(T, N, relaxed) STORE(T, N, release) STORE(T, N, seqcst)           \
    LOAD(T, N, relaxed) LOAD(T, N, acquire) LOAD(T, N, seqcst)              \
    CAS2(T, N, acqrel, relaxed) CAS2(T, N, acqrel, acquire)                 \
    CAS2(T, N, seqcst, relaxed) CAS2(T, N, seqcst, seqcst)                  \
    CAS2(T, N, release, relaxed) CAS2(T, N, relaxed, relaxed)               \
    CAS2(T, N, acquire, acquire) CAS2(T, N, acquire, relaxed)
namespace {
// names without underscores
struct W {
    static constexpr vecmem::memory_order relaxed = MO::relaxed,
        acquire = MO::acquire, release = MO::release, acqrel = MO::acq_rel,
        seqcst = MO::seq_cst;
};
}  // namespace

#define O W
ALL(std::uint32_t, u32)
ALL(std::uint64_t, u64)
#endif
