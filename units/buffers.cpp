// Entry points for the analysis of the buffers. Never executed.
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/container.hpp>

using namespace vecmem;
typedef memory_resource MR;
typedef std::size_t N;
typedef unsigned int U;

struct T {
    int a[3];
};
struct alignas(128) V {
    char a[128];
};
void vp_see(N cap, const void* size, const void* ptr);
void vp_seej(N n, const void* ptr, const void* host);

template <typename X>
void vb(MR* m, U n, data::buffer_type t) {
    data::vector_buffer<X> b(n, *m, t);
    data::vector_view<X>& v = get_data(b);
    vp_see(v.capacity(), v.size_ptr(), v.ptr());
}
template <typename X, typename C>
void jb(MR* m, MR* h, const std::vector<C>* c, data::buffer_type t) {
    data::jagged_vector_buffer<X> b(*c, *m, h, t);
    data::jagged_vector_view<X>& v = get_data(b);
    vp_seej(v.size(), v.ptr(), v.host_ptr());
}

template <typename X>
void seen(X& b) {
    auto& v = get_data(b);
    vp_see(v.capacity(), v.size_ptr(), v.ptr());
}
template <typename X>
void seenj(X& b) {
    auto& v = get_data(b);
    vp_seej(v.size(), v.ptr(), v.host_ptr());
}
const data::buffer_type FIX = data::buffer_type::fixed_size;
const data::buffer_type RES = data::buffer_type::resizable;


// SoA containers: what was made for the container, and for its variables
void vp_mem(int what, N size, const void* ptr);
void vp_var0(int i, const void* ptr);
void vp_var1(int i, N cap, const void* size, const void* ptr);
void vp_var2(int i, N n, const void* ptr, const void* host);
template <typename X>
void var(int i, X* p) {
    vp_var0(i, p);
}
template <typename X>
void var(int i, const data::vector_view<X>& v) {
    vp_var1(i, v.capacity(), v.size_ptr(), v.ptr());
}
template <typename X>
void var(int i, const data::jagged_vector_view<X>& v) {
    vp_var2(i, v.size(), v.ptr(), v.host_ptr());
}
template <typename... X, std::size_t... I>
void vars(edm::view<edm::schema<X...>>& v, std::index_sequence<I...>) {
    vp_mem(0, v.capacity(), nullptr);
    vp_mem(1, v.size().size(), v.size().ptr());
    vp_mem(2, v.payload().size(), v.payload().ptr());
    vp_mem(3, v.layout().size(), v.layout().ptr());
    vp_mem(4, v.host_layout().size(), v.host_layout().ptr());
    (var(I, v.template get<I>()), ...);
}
template <typename... X>
void seene(edm::buffer<edm::schema<X...>>& b) {
    edm::view<edm::schema<X...>> v = get_data(b);
    vars(v, std::index_sequence_for<X...>{});
}
template <typename X>
using sc = edm::type::scalar<X>;
template <typename X>
using vc = edm::type::vector<X>;
template <typename X>
using jv = edm::type::jagged_vector<X>;
typedef edm::buffer<edm::schema<vc<char>, sc<V>, vc<T>>> E1;
typedef edm::buffer<edm::schema<vc<T>>> E2;
typedef edm::buffer<edm::schema<sc<char>, vc<T>, jv<double>>> E3;
typedef edm::buffer<edm::schema<jv<char>, jv<T>>> E4;

extern "C" {
void vp_vb_none() {
    data::vector_buffer<T> b;
    seen(b);
}
void vp_vb_move(MR* m, U n) {
    data::vector_buffer<T> a(n, *m, RES);
    data::vector_buffer<T> b(std::move(a));
    seen(b);
}
void vp_vb_assign(MR* m, U n, MR* k, U l) {
    data::vector_buffer<T> a(n, *m, RES);
    data::vector_buffer<T> b(l, *k, RES);
    b = std::move(a);
    seen(b);
}
void vp_vb_fill(MR* m, U n) {
    data::vector_buffer<T> b;
    b = data::vector_buffer<T>(n, *m, RES);
    seen(b);
}
void vp_jb_none() {
    data::jagged_vector_buffer<T> b;
    seenj(b);
}
void vp_jb_move(MR* m, MR* h, const std::vector<N>* c) {
    data::jagged_vector_buffer<T> a(*c, *m, h, RES);
    data::jagged_vector_buffer<T> b(std::move(a));
    seenj(b);
}
void vp_jb_fill(MR* m, MR* h, const std::vector<N>* c) {
    data::jagged_vector_buffer<T> b;
    b = data::jagged_vector_buffer<T>(*c, *m, h, RES);
    seenj(b);
}
void vp_vb_fix(MR* m, U n) { vb<T>(m, n, data::buffer_type::fixed_size); }
void vp_vb_fix_w(MR* m, U n) { vb<V>(m, n, data::buffer_type::fixed_size); }
void vp_vb_fix_c(MR* m, U n) { vb<char>(m, n, data::buffer_type::fixed_size); }
void vp_vb_res(MR* m, U n) { vb<T>(m, n, data::buffer_type::resizable); }
void vp_vb_res_w(MR* m, U n) { vb<V>(m, n, data::buffer_type::resizable); }
void vp_vb_res_c(MR* m, U n) { vb<char>(m, n, data::buffer_type::resizable); }
void vp_jb_fix(MR* m, MR* h, const std::vector<N>* c) {
    jb<T>(m, h, c, data::buffer_type::fixed_size);
}
void vp_jb_fix_w(MR* m, MR* h, const std::vector<U>* c) {
    jb<V>(m, h, c, data::buffer_type::fixed_size);
}
void vp_jb_res(MR* m, MR* h, const std::vector<N>* c) {
    jb<T>(m, h, c, data::buffer_type::resizable);
}
void vp_jb_res_w(MR* m, MR* h, const std::vector<U>* c) {
    jb<V>(m, h, c, data::buffer_type::resizable);
}
void vp_eb_fix_1(MR* m, U n) {
    E1 b(n, *m, FIX);
    seene(b);
}
void vp_eb_res_1(MR* m, U n) {
    E1 b(n, *m, RES);
    seene(b);
}
void vp_eb_fix_2(MR* m, U n) {
    E2 b(n, *m, FIX);
    seene(b);
}
void vp_eb_res_2(MR* m, U n) {
    E2 b(n, *m, RES);
    seene(b);
}
void vp_eb_fix_3(MR* m, MR* h, const std::vector<N>* c) {
    E3 b(*c, *m, h, FIX);
    seene(b);
}
void vp_eb_res_3(MR* m, MR* h, const std::vector<N>* c) {
    E3 b(*c, *m, h, RES);
    seene(b);
}
void vp_eb_fix_4(MR* m, MR*, const std::vector<U>* c) {
    E4 b(*c, *m, nullptr, FIX);
    seene(b);
}
void vp_eb_res_4(MR* m, MR& h, const std::vector<U>* c) {
    E4 b(*c, *m, &h, RES);
    seene(b);
}
void vp_eb_move(MR* m, U n) {
    E2 a(n, *m, RES);
    E2 b(std::move(a));
    seene(b);
}
void vp_eb_fill(MR* m, U n) {
    E1 b;
    b = E1(n, *m, RES);
    seene(b);
}
// views of jagged vectors
void vp_jd_vec(jagged_vector<T>* v, MR* m) {
    auto d = get_data(*v, m);
    seenj(d);
}
void vp_jd_vecc(const jagged_vector<T>* v, MR* m) {
    auto d = get_data(*v, m);
    seenj(d);
}
void vp_jd_std(std::vector<std::vector<T>>* v, MR* m) {
    auto d = get_data(*v, m);
    seenj(d);
}
void vp_jd_stdc(const std::vector<std::vector<T>>* v, MR* m) {
    auto d = get_data(*v, m);
    seenj(d);
}
}
