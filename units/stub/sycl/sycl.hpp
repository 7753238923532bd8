// What the (SYCL 1.2.1) atomic functions do, for the analysis of code that
// uses them. Never executed.
#pragma once
#include <cassert>

namespace sycl {
namespace access {
enum class address_space { global_space, local_space };
}
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
template <class T>
struct global_ptr {
    T* p;
    explicit global_ptr(T* x) : p(x) {}
};
template <class T>
struct local_ptr {
    T* p;
    explicit local_ptr(T* x) : p(x) {}
};
template <class T, access::address_space S = access::address_space::global_space>
struct atomic {
    T* p;
    atomic(global_ptr<T> x) : p(x.p) {}
    atomic(local_ptr<T> x) : p(x.p) {}
};
#define VP_S access::address_space S = access::address_space::global_space
template <class T, VP_S>
void atomic_store(atomic<T, S> a, T v) {
    __atomic_store_n(a.p, v, __ATOMIC_RELAXED);
}
template <class T, VP_S>
T atomic_load(atomic<T, S> a) {
    return __atomic_load_n(a.p, __ATOMIC_RELAXED);
}
template <class T, VP_S>
T atomic_exchange(atomic<T, S> a, T v) {
    return __atomic_exchange_n(a.p, v, __ATOMIC_RELAXED);
}
template <class T, VP_S>
bool atomic_compare_exchange_strong(atomic<T, S> a, T& e, T v) {
    return __atomic_compare_exchange_n(a.p, &e, v, false, __ATOMIC_RELAXED,
                                       __ATOMIC_RELAXED);
}
#define VP_F(N)                                                      \
    template <class T, VP_S>                                         \
    T atomic_fetch_##N(atomic<T, S> a, T v) {                        \
        return __atomic_fetch_##N(a.p, v, __ATOMIC_RELAXED);         \
    }
VP_F(add)
VP_F(sub)
VP_F(and)
VP_F(or)
VP_F(xor)
}  // namespace sycl
