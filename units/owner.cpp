// Entry points for the analysis of the owners of memory. Never executed.
#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/unique_ptr.hpp>

using namespace vecmem;

/// Element types with visible life time: 12 bytes, and over-aligned 128 bytes
struct E {
    int a[3];
    E();
    E(const E&);
    E(int, const int&);
    ~E();
};
struct alignas(128) W {
    char a[128];
    W();
    W(const W&);
    W(int, const int&);
    ~W();
};
/// Trivial types of the same layout
struct T {
    int a[3];
};
struct alignas(128) V {
    char a[128];
};

void vp_use(const void*, const void*);
void vp_use(const void*);
void vp_fill(void*, const void*, std::size_t);

struct Fill {
    void operator()(void* p, const void* f, std::size_t n) const {
        vp_fill(p, f, n);
    }
};
typedef memory_resource MR;
typedef std::size_t N;

template <typename X>
void obj(MR* m, int x, const int* y) {
    auto p = make_unique_obj<X>(*m, x, *y);
    vp_use(p.get());
}
template <typename X>
void objs(MR* m, N n) {
    auto p = make_unique_obj<X[]>(*m, n);
    vp_use(p.get());
}
template <typename X>
void mem(MR* m) {
    auto p = make_unique_alloc<X>(*m);
    vp_use(p.get());
}
template <typename X>
void mems(MR* m, N n) {
    auto p = make_unique_alloc<X[]>(*m, n);
    vp_use(p.get());
}
template <typename X>
void copy(MR* m, const X* f) {
    auto p = make_unique_alloc<X>(*m, f, Fill());
    vp_use(p.get());
}
template <typename X>
void copies(MR* m, N n, const X* f) {
    auto p = make_unique_alloc<X[]>(*m, n, f, Fill());
    vp_use(p.get());
}

extern "C" {
// anchors of the elements' life time
void vp_make_default(E* e) { new (e) E(); }
void vp_make_copy(E* e, const E* f) { new (e) E(*f); }
void vp_make_args(E* e, int x, const int* y) { new (e) E(x, *y); }
void vp_destroy(E* e) { e->~E(); }
void vw_make_default(W* e) { new (e) W(); }
void vw_make_copy(W* e, const W* f) { new (e) W(*f); }
void vw_make_args(W* e, int x, const int* y) { new (e) W(x, *y); }
void vw_destroy(W* e) { e->~W(); }

void vp_obj(MR* m, int x, const int* y) { obj<E>(m, x, y); }
void vp_obj_w(MR* m, int x, const int* y) { obj<W>(m, x, y); }
void vp_objs(MR* m, N n) { objs<E>(m, n); }
void vp_objs_w(MR* m, N n) { objs<W>(m, n); }
void vp_mem(MR* m) { mem<T>(m); }
void vp_mem_w(MR* m) { mem<V>(m); }
void vp_mems(MR* m, N n) { mems<T>(m, n); }
void vp_mems_w(MR* m, N n) { mems<V>(m, n); }
void vp_copy(MR* m, const T* f) { copy<T>(m, f); }
void vp_copy_w(MR* m, const V* f) { copy<V>(m, f); }
void vp_copies(MR* m, N n, const T* f) { copies<T>(m, n, f); }
void vp_copies_w(MR* m, N n, const V* f) { copies<V>(m, n, f); }

// handing over
void vp_move(MR* m, int x, const int* y) {
    auto p = make_unique_obj<E>(*m, x, *y);
    unique_obj_ptr<E> q = std::move(p);
    vp_use(q.get());
}
void vp_moves(MR* m, N n) {
    auto p = make_unique_obj<E[]>(*m, n);
    unique_obj_ptr<E[]> q = std::move(p);
    vp_use(q.get());
}
void vp_move_mem(MR* m, N n) {
    auto p = make_unique_alloc<T[]>(*m, n);
    unique_alloc_ptr<T[]> q = std::move(p);
    vp_use(q.get());
}
void vp_swap(MR* m, MR* k, N n, N l) {
    auto p = make_unique_obj<E[]>(*m, n);
    auto q = make_unique_obj<E[]>(*k, l);
    q = std::move(p);
    vp_use(q.get());
}
void vp_swap_mem(MR* m, MR* k, N n, N l) {
    auto p = make_unique_alloc<T[]>(*m, n);
    auto q = make_unique_alloc<T[]>(*k, l);
    q = std::move(p);
    vp_use(q.get());
}
void vp_swap_obj(MR* m, MR* k, int x, const int* y) {
    auto p = make_unique_obj<E>(*m, x, *y);
    auto q = make_unique_obj<E>(*k, x, *y);
    q = std::move(p);
    vp_use(q.get());
}

// allocator
void vp_a_obj(allocator* a, int x, const int* y) {
    E* p = a->new_object<E>(x, *y);
    vp_use(p);
    a->delete_object(p);
}
void vp_a_obj_w(allocator* a, int x, const int* y) {
    W* p = a->new_object<W>(x, *y);
    vp_use(p);
    a->delete_object(p);
}
void vp_a_mem(allocator* a, N n) {
    T* p = a->allocate_object<T>(n);
    vp_use(p);
    a->deallocate_object(p, n);
}
void vp_a_mem_w(allocator* a, N n) {
    V* p = a->allocate_object<V>(n);
    vp_use(p);
    a->deallocate_object(p, n);
}
void vp_a_one(allocator* a) {
    V* p = a->allocate_object<V>();
    vp_use(p);
    a->deallocate_object(p);
}
void vp_a_bytes(allocator* a, N n, N l) {
    void* p = a->allocate_bytes(n, l);
    vp_use(p);
    a->deallocate_bytes(p, n, l);
}
void vp_a_bytes_d(allocator* a, N n) {
    void* p = a->allocate_bytes(n);
    vp_use(p);
    a->deallocate_bytes(p, n);
}
void vp_a_make(allocator* a, MR* m, N n, N l) {
    allocator b(*m);
    void* p = b.allocate_bytes(n, l);
    vp_use(p);
    b.deallocate_bytes(p, n, l);
}
}
