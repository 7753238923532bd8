// Entry points for the analysis of static_vector. Never executed.
#include <vecmem/containers/static_vector.hpp>

using namespace vecmem;
typedef std::size_t N;

/// Element type with visible life time (12 bytes)
struct E {
    int a[3];
    E();
    E(const E&);
    E(int, const int&);
    ~E();
};
/// An over-aligned one
struct alignas(64) L {
    char c[64];
};
typedef static_vector<E, 7> S;
typedef static_vector<int, 7> SI;

void vp_see(N, const void*);
void vp_num(N);
void vp_at(const void*);

extern "C" {
void vp_make_default(E* e) { new (e) E(); }
void vp_make_copy(E* e, const E* f) { new (e) E(*f); }
void vp_make_args(E* e, int x, const int* y) { new (e) E(x, *y); }
void vp_destroy(E* e) { e->~E(); }
N vp_layout_align() { return alignof(static_vector<L, 3>); }
const L* vp_layout_place(const static_vector<L, 3>* s) { return s->data(); }
N vp_layout_size(const S* s) { return s->size(); }
const E* vp_layout_data(const S* s) { return s->data(); }

void vp_x_new(S* s) { new (s) S(); vp_see(s->size(), s->data()); }
void vp_x_make(S* s, N n, const E* v) {
    new (s) S(n, *v);
    vp_see(s->size(), s->data());
}
void vp_x_make_range(S* s, const E* b, const E* e) {
    new (s) S(b, e);
    vp_see(s->size(), s->data());
}
void vp_x_copy(S* s, const S* o) {
    new (s) S(*o);
    vp_see(s->size(), s->data());
}
void vp_x_drop(S* s) { s->~S(); }
void vp_x_op(S* s, const S* o) {
    *s = *o;
    vp_see(s->size(), s->data());
}
void vp_x_assign(S* s, N n, const E* v) {
    s->assign(n, *v);
    vp_see(s->size(), s->data());
}
void vp_x_assign_range(S* s, const E* b, const E* e) {
    s->assign(b, e);
    vp_see(s->size(), s->data());
}
void vp_x_insert(S* s, N i, const E* v) {
    const E* r = s->insert(s->begin() + i, *v);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_insert_n(S* s, N i, N n, const E* v) {
    const E* r = s->insert(s->begin() + i, n, *v);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_insert_range(S* s, N i, const E* b, const E* e) {
    const E* r = s->insert(s->begin() + i, b, e);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_emplace(S* s, N i, int x, const int* y) {
    const E* r = s->emplace(s->begin() + i, x, *y);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_emplace_back(S* s, int x, const int* y) {
    const E* r = &s->emplace_back(x, *y);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_emplace_own(S* s, N i, const E* v) {
    const E* r = s->emplace(s->begin() + i, *v);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_emplace_back_own(S* s, const E* v) {
    const E* r = &s->emplace_back(*v);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_push_back(S* s, const E* v) {
    s->push_back(*v);
    vp_see(s->size(), s->data());
}
void vp_x_erase(S* s, N i) {
    const E* r = s->erase(s->begin() + i);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_erase_range(S* s, N i, N j) {
    const E* r = s->erase(s->begin() + i, s->begin() + j);
    vp_at(r);
    vp_see(s->size(), s->data());
}
void vp_x_pop_back(S* s) {
    s->pop_back();
    vp_see(s->size(), s->data());
}
void vp_x_clear(S* s) {
    s->clear();
    vp_see(s->size(), s->data());
}
void vp_x_resize(S* s, N n) {
    s->resize(n);
    vp_see(s->size(), s->data());
}
void vp_x_resize_value(S* s, N n, const E* v) {
    s->resize(n, *v);
    vp_see(s->size(), s->data());
}
void vp_x_reserve(S* s, N n) {
    s->reserve(n);
    vp_see(s->size(), s->data());
}

// access, compared with what is meant
void vp_s_at(S* s, N i) { vp_at(&s->at(i)); }
void sp_s_at(S* s, N i) { vp_at(s->data() + i); }
void vp_s_atc(const S* s, N i) { vp_at(&s->at(i)); }
void sp_s_atc(const S* s, N i) { vp_at(s->data() + i); }
void vp_s_sub(S* s, N i) { vp_at(&(*s)[i]); }
void sp_s_sub(S* s, N i) { vp_at(s->data() + i); }
void vp_s_subc(const S* s, N i) { vp_at(&(*s)[i]); }
void sp_s_subc(const S* s, N i) { vp_at(s->data() + i); }
void vp_s_ends(S* s) {
    const S* c = s;
    vp_at(&s->front());
    vp_at(&c->front());
    vp_at(&s->back());
    vp_at(&c->back());
    vp_at(c->data());
    vp_num(s->max_size());
    vp_num(s->capacity());
    vp_num(s->empty());
    vp_num(c->size());
}
void sp_s_ends(S* s) {
    const S* c = s;
    const E* p = s->data();
    vp_at(p);
    vp_at(p);
    vp_at(p + c->size() - 1);
    vp_at(p + c->size() - 1);
    vp_at(p);
    vp_num(7);
    vp_num(7);
    vp_num(s->size() == 0);
    vp_num(s->size());
}
void vp_s_iter(S* s) {
    const S* c = s;
    vp_at(s->begin());
    vp_at(c->begin());
    vp_at(c->cbegin());
    vp_at(s->end());
    vp_at(c->end());
    vp_at(c->cend());
    vp_at(s->rbegin().base());
    vp_at(c->rbegin().base());
    vp_at(c->crbegin().base());
    vp_at(s->rend().base());
    vp_at(c->rend().base());
    vp_at(c->crend().base());
}
void sp_s_iter(S* s) {
    const E* b = s->data();
    const E* e = b + s->size();
    vp_at(b);
    vp_at(b);
    vp_at(b);
    vp_at(e);
    vp_at(e);
    vp_at(e);
    vp_at(e);
    vp_at(e);
    vp_at(e);
    vp_at(b);
    vp_at(b);
    vp_at(b);
}
}
