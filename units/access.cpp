// What views, arrays and iterators give access to. vp_X is analysed and
// compared with sp_X, which says what is meant. Never executed.
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/jagged_vector_view.hpp>
#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/details/reverse_iterator.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/static_array.hpp>
#include <vecmem/containers/vector.hpp>

using namespace vecmem;
typedef unsigned int U;
typedef std::size_t N;
typedef std::ptrdiff_t I;

struct T {
    int a[3];
};
typedef data::vector_view<T> V;
typedef data::vector_view<const T> CV;
typedef data::jagged_vector_view<T> J;
typedef data::jagged_vector_view<const T> CJ;
typedef jagged_device_vector<T> JD;
typedef jagged_device_vector<const T> CJD;
typedef JD::iterator JI;
typedef JD::const_iterator CJI;
typedef details::reverse_iterator<T*> RI;
typedef JD::reverse_iterator RJ;
typedef array<T> RA;
typedef array<T, 5> FA;
typedef device_array<T, 5> DA;
typedef static_array<T, 5> SA;
typedef static_array<int, 3> SI;
typedef static_array<int, 9> SJ;

void vp_see(N, const void*, const void*);
void vp_at(const void*);
void vp_num(N);
void vp_bool(bool);

/// The view behind a device vector
struct Raw {
    U cap;
    U* size;
    T* ptr;
};
template <typename X>
void see(const X& v) {
    vp_see(v.capacity(), v.size_ptr(), v.ptr());
}
template <typename X>
void seej(const X& v) {
    vp_see(v.size(), v.ptr(), v.host_ptr());
}
/// A device vector made from a view
template <typename X>
void dev(const X& d) {
    const Raw& r = reinterpret_cast<const Raw&>(d);
    vp_see(r.cap, r.size, r.ptr);
}
static_assert(sizeof(device_vector<T>) == sizeof(Raw), "layout");
static_assert(sizeof(V) == sizeof(Raw), "layout");
void raw(const V* v) { vp_see(v->capacity(), v->size_ptr(), v->ptr()); }

extern "C" {
// ---- views
void vp_v_fix(U n, T* p) { see(V(n, p)); }
void sp_v_fix(U n, T* p) { vp_see(n, nullptr, p); }
void vp_v_res(U n, U* s, T* p) { see(V(n, s, p)); }
void sp_v_res(U n, U* s, T* p) { vp_see(n, s, p); }
U vp_v_size(U n, U* s, T* p) { return V(n, s, p).size(); }
U sp_v_size(U n, U* s, T*) { return s ? *s : n; }
U vp_v_size_c(U n, U* s, T* p) { return CV(n, s, p).size(); }
U sp_v_size_c(U n, U* s, T*) { return s ? *s : n; }
void vp_v_const(const V* v) { see(CV(*v)); }
void sp_v_const(const V* v) { raw(v); }
void vp_v_copy(const V* v) { see(V(*v)); }
void sp_v_copy(const V* v) { raw(v); }
void vp_v_assign(CV* w, const V* v) {
    *w = *v;
    see(*w);
}
void sp_v_assign(CV* w, const V* v) {
    Raw& r = reinterpret_cast<Raw&>(*w);
    const Raw& q = reinterpret_cast<const Raw&>(*v);
    r.cap = q.cap;
    r.size = q.size;
    r.ptr = q.ptr;
    vp_see(q.cap, q.size, q.ptr);
}
bool vp_v_eq(U n, U* s, T* p, U m, U* t, T* q) {
    return V(n, s, p) == CV(m, t, q);
}
bool sp_v_eq(U n, U* s, T* p, U m, U* t, T* q) {
    return n == m && s == t && p == q;
}
bool vp_v_ne(U n, U* s, T* p, U m, U* t, T* q) {
    return V(n, s, p) != V(m, t, q);
}
bool sp_v_ne(U n, U* s, T* p, U m, U* t, T* q) {
    return n != m || s != t || p != q;
}
void vp_v_j(N n, V* p) { seej(J(n, p)); }
void sp_v_j(N n, V* p) { vp_see(n, p, p); }
void vp_v_jh(N n, V* p, V* h) { seej(J(n, p, h)); }
void sp_v_jh(N n, V* p, V* h) { vp_see(n, p, h ? h : p); }
void vp_v_jconst(N n, V* p, V* h) { seej(CJ(J(n, p, h))); }
void sp_v_jconst(N n, V* p, V* h) { vp_see(n, p, h ? h : p); }
void vp_v_jassign(N n, V* p, V* h) {
    CJ c(0, nullptr);
    c = J(n, p, h);
    seej(c);
}
void sp_v_jassign(N n, V* p, V* h) { vp_see(n, p, h ? h : p); }
bool vp_v_jeq(N n, V* p, V* h, N m, V* q, V* k) {
    return J(n, p, h) == J(m, q, k);
}
bool sp_v_jeq(N n, V* p, V* h, N m, V* q, V* k) {
    return n == m && p == q && (h ? h : p) == (k ? k : q);
}
bool vp_v_jne(N n, V* p, V* h, N m, V* q, V* k) {
    return J(n, p, h) != J(m, q, k);
}
bool sp_v_jne(N n, V* p, V* h, N m, V* q, V* k) {
    return n != m || p != q || (h ? h : p) != (k ? k : q);
}
void vp_v_jcap(N n, V* p, V* h) { vp_num(J(n, p, h).capacity()); }
void sp_v_jcap(N n, V*, V*) { vp_num(n); }
void vp_v_vec(vector<T>* v) { see(get_data(*v)); }
void sp_v_vec(vector<T>* v) { vp_see(U(v->size()), nullptr, v->data()); }
void vp_v_cvec(const std::vector<T>* v) { see(get_data(*v)); }
void sp_v_cvec(const std::vector<T>* v) {
    vp_see(U(v->size()), nullptr, v->data());
}
void vp_v_arr(RA* v) { see(get_data(*v)); }
void sp_v_arr(RA* v) { vp_see(U(v->size()), nullptr, v->data()); }
void vp_v_carr(const FA* v) { see(get_data(*v)); }
void sp_v_carr(const FA* v) { vp_see(U(v->size()), nullptr, v->data()); }

// ---- jagged device vectors
void vp_j_at(J* j, N i) { dev(JD(*j).at(i)); }
void sp_j_at(J* j, N i) { raw(j->ptr() + i); }
void vp_j_at_c(J* j, N i) {
    const JD d(*j);
    dev(d.at(i));
}
void sp_j_at_c(J* j, N i) { raw(j->ptr() + i); }
void vp_j_sub(J* j, N i) { dev(JD(*j)[i]); }
void sp_j_sub(J* j, N i) { raw(j->ptr() + i); }
void vp_j_sub_c(J* j, N i) {
    const JD d(*j);
    dev(d[i]);
}
void sp_j_sub_c(J* j, N i) { raw(j->ptr() + i); }
void vp_j_front(J* j) {
    JD d(*j);
    const JD& c = d;
    dev(d.front());
    dev(c.front());
}
void sp_j_front(J* j) {
    raw(j->ptr());
    raw(j->ptr());
}
void vp_j_back(J* j) {
    JD d(*j);
    const JD& c = d;
    dev(d.back());
    dev(c.back());
}
void sp_j_back(J* j) {
    raw(j->ptr() + j->size() - 1);
    raw(j->ptr() + j->size() - 1);
}
void vp_j_size(J* j) {
    JD d(*j);
    vp_num(d.size());
    vp_num(d.max_size());
    vp_num(d.capacity());
    vp_bool(d.empty());
}
void sp_j_size(J* j) {
    vp_num(j->size());
    vp_num(j->size());
    vp_num(j->size());
    vp_bool(j->size() == 0);
}
void vp_j_copy(J* j, J* k, N i) {
    JD d(*j);
    JD e(d);
    JD f(*k);
    f = e;
    vp_num(e.size());
    vp_num(f.size());
    dev(e[i]);
    dev(f[i]);
}
void sp_j_copy(J* j, J*, N i) {
    vp_num(j->size());
    vp_num(j->size());
    raw(j->ptr() + i);
    raw(j->ptr() + i);
}
void vp_j_iter(J* j, I n) {
    JD d(*j);
    const JD& c = d;
    dev(*(d.begin() + n));
    dev(*(d.end() - n));
    dev(*(c.begin() + n));
    dev(*(c.end() - n));
    dev(*(c.cbegin() + n));
    dev(*(c.cend() - n));
}
void sp_j_iter(J* j, I n) {
    for (int k = 0; k < 0; ++k)
        ;
    raw(j->ptr() + n);
    raw(j->ptr() + j->size() - n);
    raw(j->ptr() + n);
    raw(j->ptr() + j->size() - n);
    raw(j->ptr() + n);
    raw(j->ptr() + j->size() - n);
}
void vp_j_riter(J* j, I n) {
    JD d(*j);
    const JD& c = d;
    dev(*(d.rbegin() + n));
    dev(*(d.rend() - n));
    dev(*(c.rbegin() + n));
    dev(*(c.rend() - n));
    dev(*(c.crbegin() + n));
    dev(*(c.crend() - n));
}
void sp_j_riter(J* j, I n) {
    raw(j->ptr() + j->size() - n - 1);
    raw(j->ptr() + n - 1);
    raw(j->ptr() + j->size() - n - 1);
    raw(j->ptr() + n - 1);
    raw(j->ptr() + j->size() - n - 1);
    raw(j->ptr() + n - 1);
}
void vp_j_step(V* p, I n) {
    JI i(p);
    dev(*i);
    dev(*++i);
    dev(*i++);
    dev(*i);
    dev(*--i);
    dev(*i--);
    dev(*i);
    dev(*(i += n));
    dev(*(i -= 3));
    dev(i[n]);
    dev(*i.operator->().operator->());
}
void sp_j_step(V* p, I n) {
    raw(p);
    raw(p + 1);
    raw(p + 1);
    raw(p + 2);
    raw(p + 1);
    raw(p + 1);
    raw(p);
    raw(p + n);
    raw(p + n - 3);
    raw(p + n - 3 + n);
    raw(p + n - 3);
}
void vp_j_icopy(V* p, V* q) {
    JI i(p), k(q);
    JI l(i);
    k = l;
    dev(*k);
}
void sp_j_icopy(V* p, V*) { raw(p); }
void vp_j_iconv(V* p, N i) {
    JI k(p);
    CJI l(k);
    CJI m;
    m = k;
    dev(*l);
    dev(m[static_cast<I>(i)]);
}
void sp_j_iconv(V* p, N i) {
    raw(p);
    raw(p + i);
}
bool vp_j_ieq(V* p, V* q) { return JI(p) == JI(q); }
bool sp_j_ieq(V* p, V* q) { return p == q; }
bool vp_j_ine(V* p, V* q) { return JI(p) != JI(q); }
bool sp_j_ine(V* p, V* q) { return p != q; }
void vp_j_rstep(V* p, I n) {
    RJ i{JI(p)};
    dev(*i);
    dev(*++i);
    dev(*i++);
    dev(*i);
    dev(*--i);
    dev(*i--);
    dev(*i);
    dev(*(i += n));
    dev(*(i -= 3));
    dev(i[n]);
    dev(*(i + n));
    dev(*(i - n));
}
void sp_j_rstep(V* p, I n) {
    raw(p - 1);
    raw(p - 2);
    raw(p - 2);
    raw(p - 3);
    raw(p - 2);
    raw(p - 2);
    raw(p - 1);
    raw(p - 1 - n);
    raw(p - 1 - n + 3);
    raw(p - 1 - n + 3 - n);
    raw(p - 1 - n + 3 - n);
    raw(p - 1 - n + 3 + n);
}

// ---- reverse iterators
void vp_r_step(T* p, I n) {
    RI i(p);
    vp_at(&*i);
    vp_at(&*++i);
    vp_at(&*i++);
    vp_at(&*i);
    vp_at(&*--i);
    vp_at(&*i--);
    vp_at(&*i);
    vp_at(&*(i += n));
    vp_at(&*(i -= 3));
    vp_at(&i[n]);
    vp_at(&*(i + n));
    vp_at(&*(i - n));
    vp_at(i.operator->());
    vp_at(i.base());
}
void sp_r_step(T* p, I n) {
    vp_at(p - 1);
    vp_at(p - 2);
    vp_at(p - 2);
    vp_at(p - 3);
    vp_at(p - 2);
    vp_at(p - 2);
    vp_at(p - 1);
    vp_at(p - 1 - n);
    vp_at(p + 2 - n);
    vp_at(p + 2 - n - n);
    vp_at(p + 2 - n - n);
    vp_at(p + 2);
    vp_at(p + 2 - n);
    vp_at(p + 3 - n);
}
void vp_r_copy(T* p, T* q) {
    RI i(p), k(q), l(i);
    k = l;
    details::reverse_iterator<const T*> c(k);
    vp_at(k.base());
    vp_at(c.base());
}
void sp_r_copy(T* p, T*) {
    vp_at(p);
    vp_at(p);
}
bool vp_r_eq(T* p, T* q) { return RI(p) == RI(q); }
bool sp_r_eq(T* p, T* q) { return p == q; }
bool vp_r_ne(T* p, T* q) { return RI(p) != RI(q); }
bool sp_r_ne(T* p, T* q) { return p != q; }

// ---- arrays
void vp_a_dev(V* v, N i, I n) {
    DA d(*v);
    const DA e(d);
    DA f(*v);
    f = e;
    vp_at(&d.at(i));
    vp_at(&e.at(i));
    vp_at(&f[i]);
    vp_at(&e[i]);
    vp_at(&d.front());
    vp_at(&e.front());
    vp_at(&d.back());
    vp_at(&e.back());
    vp_at(d.data());
    vp_at(e.data());
    vp_at(d.begin() + n);
    vp_at(e.begin() + n);
    vp_at(e.cbegin() + n);
    vp_at(d.end() - n);
    vp_at(e.end() - n);
    vp_at(e.cend() - n);
    vp_at(&*(d.rbegin() + n));
    vp_at(&*(e.rbegin() + n));
    vp_at(&*(e.crbegin() + n));
    vp_at(&*(d.rend() - n));
    vp_at(&*(e.rend() - n));
    vp_at(&*(e.crend() - n));
    vp_num(d.size());
    vp_num(d.max_size());
    vp_bool(d.empty());
}
void sp_a_dev(V* v, N i, I n) {
    T* p = v->ptr();
    vp_at(p + i);
    vp_at(p + i);
    vp_at(p + i);
    vp_at(p + i);
    vp_at(p);
    vp_at(p);
    vp_at(p + 4);
    vp_at(p + 4);
    vp_at(p);
    vp_at(p);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + 5 - n);
    vp_at(p + 5 - n);
    vp_at(p + 5 - n);
    vp_at(p + 4 - n);
    vp_at(p + 4 - n);
    vp_at(p + 4 - n);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_num(5);
    vp_num(5);
    vp_bool(false);
}
void vp_a_devcopy(V* v, V* w) {
    DA d(*v);
    DA e(d);
    DA g(*w);
    const DA& h = d;
    g = h;
    vp_at(e.data());
    vp_at(g.data());
}
void sp_a_devcopy(V* v, V*) {
    vp_at(v->ptr());
    vp_at(v->ptr());
}
void vp_a_devc(V* v, N i) {
    device_array<const T, 5> d(*v);
    vp_at(&d[i]);
}
void sp_a_devc(V* v, N i) { vp_at(v->ptr() + i); }
void vp_a_static(SA* a, N i, I n) {
    const SA* c = a;
    vp_at(&(*a)[i]);
    vp_at(&(*c)[i]);
    vp_at(&a->front());
    vp_at(&c->front());
    vp_at(&a->back());
    vp_at(&c->back());
    vp_at(a->data());
    vp_at(c->data());
    vp_at(a->begin() + n);
    vp_at(c->begin() + n);
    vp_at(c->cbegin() + n);
    vp_at(a->end() - n);
    vp_at(c->end() - n);
    vp_at(c->cend() - n);
    vp_at(&*(a->rbegin() + n));
    vp_at(&*(c->rbegin() + n));
    vp_at(&*(c->crbegin() + n));
    vp_at(&*(a->rend() - n));
    vp_at(&*(c->rend() - n));
    vp_at(&*(c->crend() - n));
    vp_at(&get<2>(*a));
    vp_at(&get<3>(*c));
    vp_num(a->size());
    vp_num(a->max_size());
    vp_bool(a->empty());
}
void sp_a_static(SA* a, N i, I n) {
    T* p = reinterpret_cast<T*>(a);
    vp_at(p + i);
    vp_at(p + i);
    vp_at(p);
    vp_at(p);
    vp_at(p + 4);
    vp_at(p + 4);
    vp_at(p);
    vp_at(p);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + 5 - n);
    vp_at(p + 5 - n);
    vp_at(p + 5 - n);
    vp_at(p + 4 - n);
    vp_at(p + 4 - n);
    vp_at(p + 4 - n);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_at(p + 2);
    vp_at(p + 3);
    vp_num(5);
    vp_num(5);
    vp_bool(false);
}
void vp_a_run(RA* a, N i, I n) {
    const RA* c = a;
    vp_at(&(*a)[i]);
    vp_at(&(*c)[i]);
    vp_at(c->data());
    vp_at(a->begin() + n);
    vp_at(c->begin() + n);
    vp_at(c->cbegin() + n);
    vp_at(a->end() - n);
    vp_at(c->end() - n);
    vp_at(c->cend() - n);
    vp_at(&*(a->rbegin() + n));
    vp_at(&*(c->rbegin() + n));
    vp_at(&*(c->crbegin() + n));
    vp_at(&*(a->rend() - n));
    vp_at(&*(c->rend() - n));
    vp_at(&*(c->crend() - n));
    vp_bool(c->empty());
}
void sp_a_run(RA* a, N i, I n) {
    T* p = a->data();
    N s = a->size();
    vp_at(p + i);
    vp_at(p + i);
    vp_at(p);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + n);
    vp_at(p + s - n);
    vp_at(p + s - n);
    vp_at(p + s - n);
    vp_at(p + s - n - 1);
    vp_at(p + s - n - 1);
    vp_at(p + s - n - 1);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_at(p - 1 + n);
    vp_bool(s == 0);
}

// bounds which are checked
void vp_a_throw_at(RA* a, N i) { vp_at(&a->at(i)); }
void sp_a_throw_at(RA* a, N i) {
    if (i >= a->size())
        throw 1;
    vp_at(a->data() + i);
}
void vp_a_throw_atc(const FA* a, N i) { vp_at(&a->at(i)); }
void sp_a_throw_atc(const FA* a, N i) {
    if (i >= a->size())
        throw 1;
    vp_at(a->data() + i);
}
void vp_a_throw_front(RA* a) { vp_at(&a->front()); }
void sp_a_throw_front(RA* a) {
    if (a->size() == 0)
        throw 1;
    vp_at(a->data());
}
void vp_a_throw_frontc(const RA* a) { vp_at(&a->front()); }
void sp_a_throw_frontc(const RA* a) {
    if (a->size() == 0)
        throw 1;
    vp_at(a->data());
}
void vp_a_throw_back(RA* a) { vp_at(&a->back()); }
void sp_a_throw_back(RA* a) {
    if (a->size() == 0)
        throw 1;
    vp_at(a->data() + a->size() - 1);
}
void vp_a_throw_backc(const RA* a) { vp_at(&a->back()); }
void sp_a_throw_backc(const RA* a) {
    if (a->size() == 0)
        throw 1;
    vp_at(a->data() + a->size() - 1);
}
void vp_a_throw_sat(SA* a, N i) { vp_at(&a->at(i)); }
void sp_a_throw_sat(SA* a, N i) {
    if (i >= 5)
        throw 1;
    vp_at(reinterpret_cast<T*>(a) + i);
}
void vp_a_throw_satc(const SA* a, N i) { vp_at(&a->at(i)); }
void sp_a_throw_satc(const SA* a, N i) {
    if (i >= 5)
        throw 1;
    vp_at(reinterpret_cast<const T*>(a) + i);
}
// made and dropped
void vp_a_own_run(memory_resource& r, N n) {
    array<int> a(r, n);
    vp_see(a.size(), a.data(), nullptr);
}
void sp_a_own_run(memory_resource& r, N n) {
    auto p = make_unique_obj<int[]>(r, n);
    vp_see(n, p.get(), nullptr);
}
void vp_a_own_fix(memory_resource& r) {
    array<int, 4> a(r);
    vp_see(a.size(), a.data(), nullptr);
}
void sp_a_own_fix(memory_resource& r) {
    auto p = make_unique_obj<int[]>(r, 4);
    vp_see(4, p.get(), nullptr);
}
// whole arrays
void vp_a_all_fill(SI* a, const int* v) { a->fill(*v); }
void sp_a_all_fill(SI* a, const int* v) {
    int* p = reinterpret_cast<int*>(a);
    int x = *v;
    p[0] = x;
    p[1] = x;
    p[2] = x;
}
bool vp_a_all_eq(const SI* a, const SI* b) { return *a == *b; }
bool sp_a_all_eq(const SI* a, const SI* b) {
    const int* p = reinterpret_cast<const int*>(a);
    const int* q = reinterpret_cast<const int*>(b);
    if (p[0] != q[0] || p[1] != q[1] || p[2] != q[2])
        return false;
    return true;
}
bool vp_a_all_ne(const SI* a, const SI* b) { return *a != *b; }
bool sp_a_all_ne(const SI* a, const SI* b) {
    const int* p = reinterpret_cast<const int*>(a);
    const int* q = reinterpret_cast<const int*>(b);
    if (p[0] != q[0] || p[1] != q[1] || p[2] != q[2])
        return true;
    return false;
}
void vp_a_all_bigfill(SJ* a, const int* v) { a->fill(*v); }
void sp_a_all_bigfill(SJ* a, const int* v) {
    int* p = reinterpret_cast<int*>(a);
    int x = *v;
    p[0] = x;
    p[1] = x;
    p[2] = x;
    p[3] = x;
    p[4] = x;
    p[5] = x;
    p[6] = x;
    p[7] = x;
    p[8] = x;
}
bool vp_a_all_bigeq(const SJ* a, const SJ* b) { return *a == *b; }
bool sp_a_all_bigeq(const SJ* a, const SJ* b) {
    const int* p = reinterpret_cast<const int*>(a);
    const int* q = reinterpret_cast<const int*>(b);
    if (p[0] != q[0] ||
        p[1] != q[1] ||
        p[2] != q[2] ||
        p[3] != q[3] ||
        p[4] != q[4] ||
        p[5] != q[5] ||
        p[6] != q[6] ||
        p[7] != q[7] ||
        p[8] != q[8])
        return false;
    return true;
}
bool vp_a_all_bigne(const SJ* a, const SJ* b) { return *a != *b; }
bool sp_a_all_bigne(const SJ* a, const SJ* b) {
    const int* p = reinterpret_cast<const int*>(a);
    const int* q = reinterpret_cast<const int*>(b);
    if (p[0] != q[0] ||
        p[1] != q[1] ||
        p[2] != q[2] ||
        p[3] != q[3] ||
        p[4] != q[4] ||
        p[5] != q[5] ||
        p[6] != q[6] ||
        p[7] != q[7] ||
        p[8] != q[8])
        return true;
    return false;
}
void vp_a_all_rfill(array<int>* a, const int* v) { a->fill(*v); }
void sp_a_all_rfill(array<int>* a, const int* v) {
    int x = *v;
    int* p = a->data();
    N n = a->size();
    for (N i = 0; i < n; ++i)
        p[i] = x;
}
}
