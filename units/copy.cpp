// Entry points for the analysis of vecmem::copy. Never executed.
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_view.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/data/vector_view.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include <new>

using namespace vecmem;

/// Element type (12 bytes, so that byte and element counts cannot be mixed up)
struct E {
    int a[3];
};
/// Another one (20 bytes)
struct G {
    int a[5];
};

/// Gives access to the protected interface; used to learn the vtable slots.
struct spy : public vecmem::copy {
    void slot_copy(std::size_t n, const void* f, void* t, int k) const {
        do_copy(n, f, t, static_cast<type::copy_type>(k));
    }
    void slot_memset(std::size_t n, void* p, int v) const {
        do_memset(n, p, v);
    }
    event_type slot_event() const { return create_event(); }
    event_type dummy_event() const { return vecmem::copy::create_event(); }
};

typedef copy::event_type EV;
typedef copy::type::copy_type CT;
typedef data::vector_view<E> VV;
typedef data::vector_view<const E> CVV;
typedef data::jagged_vector_view<E> JV;
typedef data::jagged_vector_view<const E> CJV;

extern "C" {

// ------------------------------------------------------------ probes
void vp_slot_copy(const spy* c, std::size_t n, const void* f, void* t,
                  int k) {
    c->slot_copy(n, f, t, k);
}
void vp_slot_memset(const spy* c, std::size_t n, void* p, int v) {
    c->slot_memset(n, p, v);
}
void vp_slot_event(const spy* c, EV* o) { new (o) EV(c->slot_event()); }
void vp_slot_dummy(const spy* c, EV* o) { new (o) EV(c->dummy_event()); }
void vp_slot_wait(abstract_event* e) { e->wait(); }
unsigned vp_v_cap(const VV* v) { return v->capacity(); }
const unsigned* vp_v_size(const VV* v) { return v->size_ptr(); }
const E* vp_v_ptr(const VV* v) { return v->ptr(); }
std::size_t vp_j_size(const JV* v) { return v->size(); }
const void* vp_j_ptr(const JV* v) { return v->ptr(); }
const void* vp_j_host(const JV* v) { return v->host_ptr(); }
std::size_t vp_sizeof_view() { return sizeof(VV); }

// ------------------------------------------------------------ vectors
void vp_setup(const copy* c, const VV* v, EV* o) {
    new (o) EV(c->setup(*v));
}
void vp_memset(const copy* c, const VV* v, int x, EV* o) {
    new (o) EV(c->memset(*v, x));
}
void vp_to(const copy* c, const VV* v, memory_resource* mr, int k,
           data::vector_buffer<E>* o) {
    new (o) data::vector_buffer<E>(c->to(*v, *mr, static_cast<CT>(k)));
}
void vp_copy(const copy* c, const CVV* f, const VV* t, int k, EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}
void vp_copy_std(const copy* c, const CVV* f, std::vector<E>* t, int k,
                 EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}
unsigned vp_get_size(const copy* c, const VV* v) { return c->get_size(*v); }

// ------------------------------------------------------------ jagged
void vp_jsetup(const copy* c, const JV* v, EV* o) {
    new (o) EV(c->setup(*v));
}
void vp_jmemset(const copy* c, const JV* v, int x, EV* o) {
    new (o) EV(c->memset(*v, x));
}
void vp_jto(const copy* c, const JV* v, memory_resource* mr,
            memory_resource* h, int k, data::jagged_vector_buffer<E>* o) {
    new (o)
        data::jagged_vector_buffer<E>(c->to(*v, *mr, h, static_cast<CT>(k)));
}
void vp_jcopy(const copy* c, const CJV* f, const JV* t, int k, EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}
void vp_jcopy_std(const copy* c, const CJV* f,
                  jagged_vector<E>* t, int k, EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}
void vp_get_sizes(const copy* c, const JV* v, std::vector<unsigned>* o) {
    new (o) std::vector<unsigned>(c->get_sizes(*v));
}
void vp_set_sizes(const copy* c, const std::vector<unsigned>* s, const JV* v,
                  EV* o) {
    new (o) EV(c->set_sizes<E>(*s, *v));
}

// ------------------------------------------------------------ SoA containers
typedef edm::schema<edm::type::scalar<G>, edm::type::vector<E>,
                    edm::type::vector<G>>
    S1;
typedef edm::schema<edm::type::vector<G>, edm::type::jagged_vector<E>> S2;
typedef edm::view<S1> V1;
typedef edm::view<edm::details::add_const_t<S1>> CV1;
typedef edm::view<S2> V2;
typedef edm::view<edm::details::add_const_t<S2>> CV2;
typedef data::vector_view<char> BV;

unsigned vp_e_cap(const V1* v) { return v->capacity(); }
const void* vp_e_0(const V1* v) { return &v->get<0>(); }
const void* vp_e_1(const V1* v) { return &v->get<1>(); }
const void* vp_e_2(const V1* v) { return &v->get<2>(); }
const void* vp_e_payload(const V1* v) { return &v->payload(); }
const void* vp_e_size(const V1* v) { return &v->size(); }
const void* vp_e_layout(const V1* v) { return &v->layout(); }
const void* vp_e_host(const V1* v) { return &v->host_layout(); }
unsigned vp_e2_cap(const V2* v) { return v->capacity(); }
const void* vp_e2_0(const V2* v) { return &v->get<0>(); }
const void* vp_e2_1(const V2* v) { return &v->get<1>(); }
const void* vp_e2_payload(const V2* v) { return &v->payload(); }
const void* vp_e2_size(const V2* v) { return &v->size(); }
const void* vp_e2_layout(const V2* v) { return &v->layout(); }
const void* vp_e2_host(const V2* v) { return &v->host_layout(); }

void vp_esetup(const copy* c, const V1* v, EV* o) {
    new (o) EV(c->setup(*v));
}
void vp_ememset(const copy* c, const V1* v, int x, EV* o) {
    new (o) EV(c->memset(*v, x));
}
void vp_ecopy(const copy* c, const CV1* f, const V1* t, int k, EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}
unsigned vp_eget_size(const copy* c, const V1* v) { return c->get_size(*v); }
void vp_e2setup(const copy* c, const V2* v, EV* o) {
    new (o) EV(c->setup(*v));
}
void vp_e2memset(const copy* c, const V2* v, int x, EV* o) {
    new (o) EV(c->memset(*v, x));
}
void vp_e2copy(const copy* c, const CV2* f, const V2* t, int k, EV* o) {
    new (o) EV((*c)(*f, *t, static_cast<CT>(k)));
}

}  // extern "C"
