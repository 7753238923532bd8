// What SoA containers give access to. vp_X is analysed and compared with
// sp_X, which says what is meant. Never executed.
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/edm/data.hpp>
#include <vecmem/edm/device.hpp>
#include <vecmem/edm/host.hpp>
#include <vecmem/edm/proxy.hpp>
#include <vecmem/edm/view.hpp>

using namespace vecmem;
typedef unsigned int U;
typedef std::size_t N;

struct T {
    int a[3];
};
template <typename B>
struct I : public B {
    using B::B;
};
template <typename X>
using sc = edm::type::scalar<X>;
template <typename X>
using vc = edm::type::vector<X>;
template <typename X>
using jv = edm::type::jagged_vector<X>;
// with vectors, with jagged vectors, with scalars only
typedef edm::schema<vc<T>, sc<int>, vc<double>> SV;
typedef edm::schema<vc<const T>, sc<const int>, vc<const double>> CSV;
typedef edm::schema<sc<int>, jv<T>, vc<double>> SJ;
typedef edm::schema<sc<const int>, jv<const T>, vc<const double>> CSJ;
typedef edm::schema<sc<int>, sc<double>> SS;
typedef data::vector_view<T> VT;

void vp_see(int what, N, const void*, const void*);
void vp_at(const void*);
void vp_num(N);

template <typename X>
void see(int k, X* p) {
    vp_see(k, 0, nullptr, p);
}
template <typename X>
void see(int k, const data::vector_view<X>& v) {
    vp_see(k, v.capacity(), v.size_ptr(), v.ptr());
}
template <typename X>
void see(int k, const data::jagged_vector_view<X>& v) {
    vp_see(k, v.size(), v.host_ptr(), v.ptr());
}
template <typename X>
void seev(const X& v) {
    vp_num(v.capacity());
    see(10, v.size());
    see(11, v.payload());
    see(12, v.layout());
    see(13, v.host_layout());
    see(0, v.template get<0>());
    see(1, v.template get<1>());
    see(2, v.template get<2>());
}
/// A view with everything set
template <typename S>
struct Set : public edm::view<S> {
    using edm::view<S>::view;
    void set(char* p, U n, char* l, U m, char* h) {
        this->m_payload = {n, p};
        this->m_layout = {m, l};
        this->m_host_layout = {m, h};
    }
};
Set<SV> mkv(U cap, U* size, T* p, int* s, double* q) {
    Set<SV> v(cap, {4, reinterpret_cast<char*>(size)});
    v.get<0>() = data::vector_view<T>(cap, size, p);
    v.get<1>() = s;
    v.get<2>() = data::vector_view<double>(cap, size, q);
    return v;
}
edm::view<CSV> mkc(U cap, U* size, T* p, int* s, double* q) {
    edm::view<CSV> v(cap, {4, reinterpret_cast<char*>(size)});
    v.get<0>() = data::vector_view<const T>(cap, size, p);
    v.get<1>() = s;
    v.get<2>() = data::vector_view<const double>(cap, size, q);
    return v;
}
Set<SJ> mkj(U cap, int* s, VT* j, double* q) {
    Set<SJ> v(cap);
    v.get<0>() = s;
    v.get<1>() = data::jagged_vector_view<T>(cap, j);
    v.get<2>() = data::vector_view<double>(cap, q);
    return v;
}
template <typename X>
void dev(int k, const X& d) {
    vp_see(k, d.capacity(), nullptr, d.data());
}
typedef edm::device<SV, I> DV;
typedef edm::device<CSV, I> CDV;
typedef edm::device<SJ, I> DJ;
typedef edm::host<SV, I> HV;
typedef edm::host<SJ, I> HJ;
typedef edm::host<SS, I> HS;

extern "C" {
// ---- views
void vp_e_view(U n, U* z, T* p, int* s, double* q, char* a, U b, char* c, U d,
               char* e) {
    Set<SV> v = mkv(n, z, p, s, q);
    v.set(a, b, c, d, e);
    seev(v);
}
void sp_e_view(U n, U* z, T* p, int* s, double* q, char* a, U b, char* c, U d,
               char* e) {
    vp_num(n);
    vp_see(10, 4, nullptr, z);
    vp_see(11, b, nullptr, a);
    vp_see(12, d, nullptr, c);
    vp_see(13, d, nullptr, e);
    vp_see(0, n, z, p);
    vp_see(1, 0, nullptr, s);
    vp_see(2, n, z, q);
}
void vp_e_view_const(U n, U* z, T* p, int* s, double* q, char* a, U b, char* c,
                     U d, char* e) {
    Set<SV> v = mkv(n, z, p, s, q);
    v.set(a, b, c, d, e);
    edm::view<CSV> w(v);
    seev(w);
}
void sp_e_view_const(U n, U* z, T* p, int* s, double* q, char* a, U b, char* c,
                     U d, char* e) {
    sp_e_view(n, z, p, s, q, a, b, c, d, e);
}
void vp_e_view_assign(U n, U* z, T* p, int* s, double* q, char* a, U b,
                      char* c, U d, char* e) {
    Set<SV> v = mkv(n, z, p, s, q);
    v.set(a, b, c, d, e);
    edm::view<CSV> w(0);
    w = static_cast<const edm::view<SV>&>(v);
    seev(w);
}
void sp_e_view_assign(U n, U* z, T* p, int* s, double* q, char* a, U b,
                      char* c, U d, char* e) {
    sp_e_view(n, z, p, s, q, a, b, c, d, e);
}
void vp_e_view_jconst(U n, int* s, VT* j, VT* hj, double* q, char* a, U b, char* c,
                      U d, char* e) {
    Set<SJ> v = mkj(n, s, j, q);
    v.get<1>() = data::jagged_vector_view<T>(n, j, hj);
    v.set(a, b, c, d, e);
    edm::view<CSJ> w(v);
    seev(w);
}
void sp_e_view_jconst(U n, int* s, VT* j, VT* hj, double* q, char* a, U b, char* c,
                      U d, char* e) {
    vp_num(n);
    vp_see(10, 0, nullptr, nullptr);
    vp_see(11, b, nullptr, a);
    vp_see(12, d, nullptr, c);
    vp_see(13, d, nullptr, e);
    vp_see(0, 0, nullptr, s);
    vp_see(1, n, hj ? hj : j, j);
    vp_see(2, n, nullptr, q);
}
// ---- device containers
N vp_e_dev_size(U n, U* z, T* p, int* s, double* q) {
    return DV(mkv(n, z, p, s, q)).size();
}
N sp_e_dev_size(U n, U* z, T*, int*, double*) { return z ? *z : n; }
N vp_e_dev_csize(U n, U* z, T* p, int* s, double* q) {
    return CDV(mkc(n, z, p, s, q)).size();
}
N sp_e_dev_csize(U n, U* z, T*, int*, double*) { return z ? *z : n; }
N vp_e_dev_cap(U n, U* z, T* p, int* s, double* q) {
    return DV(mkv(n, z, p, s, q)).capacity();
}
N sp_e_dev_cap(U n, U*, T*, int*, double*) { return n; }
N vp_e_dev_jsize(U n, int* s, VT* j, double* q) {
    return DJ(mkj(n, s, j, q)).size();
}
N sp_e_dev_jsize(U n, int*, VT*, double*) { return n; }
void vp_e_dev_get(U n, U* z, T* p, int* s, double* q) {
    DV d(mkv(n, z, p, s, q));
    dev(0, d.get<0>());
    vp_at(&d.get<1>());
    dev(2, d.get<2>());
}
void sp_e_dev_get(U n, U*, T* p, int* s, double* q) {
    vp_see(0, n, nullptr, p);
    vp_at(s);
    vp_see(2, n, nullptr, q);
}
void vp_e_dev_getc(U n, U* z, T* p, int* s, double* q) {
    const DV d(mkv(n, z, p, s, q));
    dev(0, d.get<0>());
    vp_at(&d.get<1>());
    dev(2, d.get<2>());
}
void sp_e_dev_getc(U n, U*, T* p, int* s, double* q) {
    vp_see(0, n, nullptr, p);
    vp_at(s);
    vp_see(2, n, nullptr, q);
}
void vp_e_dev_getcc(U n, U* z, T* p, int* s, double* q) {
    CDV d(mkc(n, z, p, s, q));
    dev(0, d.get<0>());
    vp_at(&d.get<1>());
    dev(2, d.get<2>());
}
void sp_e_dev_getcc(U n, U*, T* p, int* s, double* q) {
    vp_see(0, n, nullptr, p);
    vp_at(s);
    vp_see(2, n, nullptr, q);
}
void vp_e_dev_getj(U n, int* s, VT* j, double* q, U i) {
    DJ d(mkj(n, s, j, q));
    vp_at(&d.get<0>());
    vp_num(d.get<1>().size());
    dev(1, d.get<1>()[i]);
    dev(2, d.get<2>());
}
void sp_e_dev_getj(U n, int* s, VT* j, double* q, U i) {
    vp_at(s);
    vp_num(n);
    device_vector<T> x(j[i]);
    vp_see(1, x.capacity(), nullptr, x.data());
    vp_see(2, n, nullptr, q);
}
// ---- elements of device containers
#define ELEM(NAME, DEV, MK, HOW)                                      \
    void vp_e_px_##NAME(U n, U* z, T* p, int* s, double* q, U i) {    \
        DEV d(MK(n, z, p, s, q));                                     \
        auto x = d.HOW;                                               \
        vp_at(&x.template get<0>());                                  \
        vp_at(&x.template get<1>());                                  \
        vp_at(&x.template get<2>());                                  \
    }                                                                 \
    void sp_e_px_##NAME(U, U*, T* p, int* s, double* q, U i) {        \
        vp_at(p + i);                                                 \
        vp_at(s);                                                     \
        vp_at(q + i);                                                 \
    }                                                                 \
    void vp_e_pc_##NAME(U n, U* z, T* p, int* s, double* q, U i) {    \
        DEV d(MK(n, z, p, s, q));                                     \
        const auto x = d.HOW;                                         \
        vp_at(&x.template get<0>());                                  \
        vp_at(&x.template get<1>());                                  \
        vp_at(&x.template get<2>());                                  \
    }                                                                 \
    void sp_e_pc_##NAME(U, U*, T* p, int* s, double* q, U i) {        \
        vp_at(p + i);                                                 \
        vp_at(s);                                                     \
        vp_at(q + i);                                                 \
    }
ELEM(op, DV, mkv, operator[](i))
ELEM(at, DV, mkv, at(i))
ELEM(opc, const DV, mkv, operator[](i))
ELEM(atc, const DV, mkv, at(i))
ELEM(opcc, CDV, mkc, operator[](i))
ELEM(atcc, const CDV, mkc, at(i))
#define ELEMJ(NAME, DEV, CON, HOW)                                    \
    void vp_e_pj_##NAME(U n, int* s, VT* j, double* q, U i) {         \
        DEV d(mkj(n, s, j, q));                                       \
        CON auto x = d.HOW;                                           \
        vp_at(&x.template get<0>());                                  \
        dev(1, x.template get<1>());                                  \
        vp_at(&x.template get<2>());                                  \
    }                                                                 \
    void sp_e_pj_##NAME(U, int* s, VT* j, double* q, U i) {           \
        vp_at(s);                                                     \
        device_vector<T> y(j[i]);                                     \
        vp_see(1, y.capacity(), nullptr, y.data());                   \
        vp_at(q + i);                                                 \
    }
ELEMJ(op, DJ, , operator[](i))
ELEMJ(at, DJ, , at(i))
ELEMJ(opk, DJ, const, operator[](i))
ELEMJ(atk, DJ, const, at(i))
// ---- appending
N vp_e_push(U n, U& z, int* p, int* s, double* q) {
    edm::view<edm::schema<vc<int>, sc<int>, vc<double>>> v(
        n, {4, reinterpret_cast<char*>(&z)});
    v.get<0>() = data::vector_view<int>(n, &z, p);
    v.get<1>() = s;
    v.get<2>() = data::vector_view<double>(n, &z, q);
    edm::device<edm::schema<vc<int>, sc<int>, vc<double>>, I> d(v);
    return d.push_back_default();
}
N sp_e_push(U, U& z, int* p, int*, double* q) {
    U i = __atomic_fetch_add(&z, 1u, __ATOMIC_RELAXED);
    p[i] = 0;
    q[i] = 0;
    return i;
}
// ---- host containers
N vp_e_host_size(const HV* h) { return h->size(); }
N sp_e_host_size(const HV* h) {
    if (h->get<0>().size() != h->get<2>().size())
        throw 1;
    return h->get<0>().size();
}
N vp_e_host_jsize(const HJ* h) { return h->size(); }
N sp_e_host_jsize(const HJ* h) {
    if (h->get<1>().size() != h->get<2>().size())
        throw 1;
    return h->get<1>().size();
}
void vp_e_host_resize(HV* h, N n) { h->resize(n); }
void sp_e_host_resize(HV* h, N n) {
    h->get<0>().resize(n);
    h->get<2>().resize(n);
}
void vp_e_host_reserve(HJ* h, N n) { h->reserve(n); }
void sp_e_host_reserve(HJ* h, N n) {
    h->get<1>().reserve(n);
    h->get<2>().reserve(n);
}
void vp_e_host_make(memory_resource& m) {
    HV h(m);
    vp_num(h.get<0>().size());
    vp_at(&h.get<1>());
    vp_num(h.get<2>().size());
    vp_at(&h.resource());
}
void sp_e_host_make(memory_resource& m) {
    vector<T> a(&m);
    vector<int> b(1, &m);
    vector<double> c(&m);
    vp_num(0);
    vp_at(b.data());
    vp_num(0);
    vp_at(&m);
}
#define IF(BAD, ...) \
    if (BAD) {       \
        __VA_ARGS__; \
    }
#define HOST(NAME, CON, HOW)                            \
    void vp_e_host_##NAME(CON HV* h, N i) {             \
        IF(i >= h->get<0>().size() || h->get<0>().size() != \
           h->get<2>().size(), UNCHECKED)               \
        auto x = (*h).HOW;                              \
        vp_at(&x.template get<0>());                    \
        vp_at(&x.template get<1>());                    \
        vp_at(&x.template get<2>());                    \
    }                                                   \
    void sp_e_host_##NAME(CON HV* h, N i) {             \
        IF(i >= h->get<0>().size() || h->get<0>().size() != \
           h->get<2>().size(), CHECKED)                 \
        vp_at(h->get<0>().data() + i);                  \
        vp_at(&h->get<1>());                            \
        vp_at(h->get<2>().data() + i);                  \
    }                                                   \
    void vp_e_host_j##NAME(CON HJ* h, N i) {            \
        IF(i >= h->get<1>().size() || h->get<1>().size() != \
           h->get<2>().size(), UNCHECKED)               \
        auto x = (*h).HOW;                              \
        vp_at(&x.template get<0>());                    \
        vp_at(&x.template get<1>());                    \
        vp_at(&x.template get<2>());                    \
    }                                                   \
    void sp_e_host_j##NAME(CON HJ* h, N i) {            \
        IF(i >= h->get<1>().size() || h->get<1>().size() != \
           h->get<2>().size(), CHECKED)                 \
        vp_at(&h->get<0>());                            \
        vp_at(h->get<1>().data() + i);                  \
        vp_at(h->get<2>().data() + i);                  \
    }
#define CHECKED return
#define UNCHECKED return
HOST(op, , operator[](i))
HOST(opc, const, operator[](i))
#undef CHECKED
#undef UNCHECKED
#define CHECKED throw 1
#define UNCHECKED
HOST(at, , at(i))
HOST(atc, const, at(i))
// ---- views of host containers
void vp_e_data(HV* h, memory_resource* m) {
    auto d = get_data(*h, m);
    seev(d);
}
void sp_e_data(HV* h, memory_resource*) {
    U n = U(h->get<0>().size());
    if (h->get<0>().size() != h->get<2>().size())
        throw 1;
    vp_num(n);
    vp_see(10, 0, nullptr, nullptr);
    vp_see(11, 0, nullptr, nullptr);
    vp_see(12, 0, nullptr, nullptr);
    vp_see(13, 0, nullptr, nullptr);
    vp_see(0, n, nullptr, h->get<0>().data());
    vp_see(1, 0, nullptr, &h->get<1>());
    vp_see(2, n, nullptr, h->get<2>().data());
}
void vp_e_datac(const HV* h, memory_resource* m) {
    auto d = get_data(*h, m);
    seev(d);
}
void sp_e_datac(const HV* h, memory_resource* m) {
    sp_e_data(const_cast<HV*>(h), m);
}
void vp_e_data_s(HS* h) {
    auto d = get_data(*h);
    vp_num(d.capacity());
    see(10, d.size());
    see(11, d.payload());
    see(12, d.layout());
    see(13, d.host_layout());
    see(0, d.get<0>());
    see(1, d.get<1>());
}
void sp_e_data_s(HS* h) {
    vp_num(0);
    vp_see(10, 0, nullptr, nullptr);
    vp_see(11, 0, nullptr, nullptr);
    vp_see(12, 0, nullptr, nullptr);
    vp_see(13, 0, nullptr, nullptr);
    vp_see(0, 0, nullptr, &h->get<0>());
    vp_see(1, 0, nullptr, &h->get<1>());
}
void vp_e_data_sc(const HS* h) {
    auto d = get_data(*h);
    vp_num(d.capacity());
    see(10, d.size());
    see(11, d.payload());
    see(12, d.layout());
    see(13, d.host_layout());
    see(0, d.get<0>());
    see(1, d.get<1>());
}
void sp_e_data_sc(const HS* h) { sp_e_data_s(const_cast<HS*>(h)); }
}
