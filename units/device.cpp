// Entry points for the analysis of device_vector. Never executed.
#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/device_vector.hpp>

using namespace vecmem;

/// Element type with visible life time (12 bytes)
struct E {
    int a[3];
    E();
    E(const E&);
    E(int, const int&);
    ~E();
};

typedef device_vector<E> DV;
typedef device_vector<const E> CDV;
typedef device_vector<int> IV;
typedef data::vector_view<E> VV;

extern "C" {
unsigned vp_v_cap(const VV* v) { return v->capacity(); }
const void* vp_v_size(const VV* v) { return v->size_ptr(); }
const void* vp_v_ptr(const VV* v) { return v->ptr(); }
// anchors of the element's life time
void vp_make_default(E* e) { new (e) E(); }
void vp_make_copy(E* e, const E* f) { new (e) E(*f); }
void vp_make_args(E* e, int x, const int* y) { new (e) E(x, *y); }
void vp_destroy(E* e) { e->~E(); }

void vp_make(DV* d, const VV* v) { new (d) DV(*v); }
void vp_copy(DV* d, const DV* s) { new (d) DV(*s); }
void vp_assign_op(DV* d, const DV* s) { *d = *s; }

unsigned vp_push_back(DV* d, const E* e) { return d->push_back(*e); }
E* vp_emplace_back(DV* d, int x, const int* y) {
    return &d->emplace_back(x, *y);
}
unsigned vp_append(DV* d, unsigned n) { return d->bulk_append(n); }
unsigned vp_append_value(DV* d, unsigned n, const E* e) {
    return d->bulk_append(n, *e);
}
unsigned vp_append_implicit(IV* d, unsigned n) {
    return d->bulk_append_implicit(n);
}
unsigned vp_append_unsafe(DV* d, unsigned n) {
    return d->bulk_append_implicit_unsafe(n);
}
unsigned vp_pop_back(DV* d) { return d->pop_back(); }
void vp_clear(DV* d) { d->clear(); }
void vp_resize(DV* d, unsigned n) { d->resize(n); }
void vp_resize_value(DV* d, unsigned n, const E* e) { d->resize(n, *e); }
void vp_resize_implicit(IV* d, unsigned n) { d->resize_implicit(n); }
void vp_resize_unsafe(DV* d, unsigned n) { d->resize_implicit_unsafe(n); }
void vp_assign(DV* d, unsigned n, const E* e) { d->assign(n, *e); }

unsigned vp_size(const DV* d) { return d->size(); }
bool vp_empty(const DV* d) { return d->empty(); }
unsigned vp_max_size(const DV* d) { return d->max_size(); }
unsigned vp_capacity(const DV* d) { return d->capacity(); }
E* vp_at(DV* d, unsigned i) { return &d->at(i); }
const E* vp_cat(const DV* d, unsigned i) { return &d->at(i); }
E* vp_index(DV* d, unsigned i) { return &(*d)[i]; }
const E* vp_cindex(const DV* d, unsigned i) { return &(*d)[i]; }
E* vp_front(DV* d) { return &d->front(); }
const E* vp_cfront(const DV* d) { return &d->front(); }
E* vp_back(DV* d) { return &d->back(); }
const E* vp_cback(const DV* d) { return &d->back(); }
E* vp_data(DV* d) { return d->data(); }
const E* vp_cdata(const DV* d) { return d->data(); }
E* vp_begin(DV* d) { return &*d->begin(); }
const E* vp_begin_c(const DV* d) { return &*d->begin(); }
const E* vp_cbegin(const DV* d) { return &*d->cbegin(); }
E* vp_end(DV* d) { return d->end(); }
const E* vp_end_c(const DV* d) { return d->end(); }
const E* vp_cend(const DV* d) { return d->cend(); }
// first element visited backwards, and the one after the last
E* vp_rbegin(DV* d) { return &*d->rbegin(); }
const E* vp_rbegin_c(const DV* d) { return &*d->rbegin(); }
const E* vp_crbegin(const DV* d) { return &*d->crbegin(); }
E* vp_rend(DV* d) { return &*d->rend(); }
const E* vp_rend_c(const DV* d) { return &*d->rend(); }
const E* vp_crend(const DV* d) { return &*d->crend(); }
}
