// Driver: instantiates and forwards to /repo's stdb_vector, nothing else.
#include "container/stdb_vector.hpp"
using namespace stdb::container;
using u64 = unsigned long;
using u8 = unsigned char;
// element types whose special members are external: the verifier gives them a life state
struct M {  // copyable and movable
  u64 v;
  M(); explicit M(u64); M(const M&); M(M&&) noexcept; ~M();
};
bool operator==(const M&, const M&); bool operator!=(const M&, const M&); bool operator<(const M&, const M&); bool operator>(const M&, const M&);
struct C {  // copyable only
  u64 v;
  C(); explicit C(u64); C(const C&); C(C&&) = delete; ~C();
};
struct R {  // byte-wise relocatable, but owns something
  u64 v;
  R(); explicit R(u64); R(const R&); R(R&&) noexcept; ~R();
};
bool operator!=(const R&, const R&); bool operator!=(const C&, const C&);
template <> struct stdb::Relocatable<R> : std::true_type {};
struct B { u64 w[4096 * 8]; };  // larger than the page threshold
template <class T> using V = stdb_vector<T>;
template <class T> struct acc : V<T> {
  static constexpr u64 start = 0;
};
extern "C" {
extern const u64 vlay[];
const u64 vlay[] = {sizeof(V<u64>)};
#define COMMON(S, T) \
void S##_ctor(void* p) { new (p) V<T>(); } \
void S##_ctor_n(void* p, u64 n) { new (p) V<T>(n); } \
void S##_ctor_nv(void* p, u64 n, const T* v) { new (p) V<T>(n, *v); } \
void S##_ctor_range(void* p, const T* a, const T* b) { new (p) V<T>(a, b); } \
void S##_ctor_copy(void* p, const V<T>* o) { new (p) V<T>(*o); } \
void S##_ctor_move(void* p, V<T>* o) { new (p) V<T>(std::move(*o)); } \
void S##_dtor(V<T>* p) { p->~V<T>(); } \
void S##_copy_assign(V<T>* p, const V<T>* o) { *p = *o; } \
void S##_move_assign(V<T>* p, V<T>* o) { *p = std::move(*o); } \
void S##_assign_nv(V<T>* p, u64 n, const T* v) { p->assign(n, *v); } \
void S##_assign_range(V<T>* p, const T* a, const T* b) { p->assign(a, b); } \
u64 S##_size(const V<T>* p) { return p->size(); } \
u64 S##_capacity(const V<T>* p) { return p->capacity(); } \
bool S##_empty(const V<T>* p) { return p->empty(); } \
u64 S##_max_size(const V<T>* p) { return p->max_size(); } \
void S##_shrink(V<T>* p) { p->shrink_to_fit(); } \
void S##_reserve(V<T>* p, u64 n) { p->reserve(n); } \
const T* S##_at(const V<T>* p, u64 i) { return &p->at(i); } \
T* S##_idx(V<T>* p, u64 i) { return &(*p)[i]; } \
T* S##_front(V<T>* p) { return &p->front(); } \
T* S##_back(V<T>* p) { return &p->back(); } \
const T* S##_cfront(const V<T>* p) { return &p->front(); } \
const T* S##_cback(const V<T>* p) { return &p->back(); } \
const T* S##_data(const V<T>* p) { return p->data(); } \
T* S##_begin(V<T>* p) { return p->begin().operator->(); } \
T* S##_end(V<T>* p) { return p->end().operator->(); } \
void S##_push_c(V<T>* p, const T* v) { p->push_back(*v); } \
void S##_push_c_unsafe(V<T>* p, const T* v) { p->template push_back<Safety::Unsafe>(*v); } \
T* S##_emplace_back(V<T>* p, u64 x) { return p->emplace_back(x).operator->(); } \
void S##_clear(V<T>* p) { p->clear(); } \
T* S##_erase(V<T>* p, u64 i) { return p->erase(p->begin() + (long)i).operator->(); } \
T* S##_erase_c(V<T>* p, u64 i) { return p->erase(p->cbegin() + (long)i).operator->(); } \
T* S##_erase_r(V<T>* p, u64 i, u64 j) { return p->erase(p->begin() + (long)i, p->begin() + (long)j).operator->(); } \
T* S##_erase_rc(V<T>* p, u64 i, u64 j) { return p->erase(p->cbegin() + (long)i, p->cbegin() + (long)j).operator->(); } \
u64 S##_erase_v(V<T>* p, const T* v) { return p->erase(*v); } \
u64 S##_erase_if(V<T>* p, bool (*f)(const T&)) { return p->erase_if(f); } \
void S##_pop(V<T>* p) { p->pop_back(); } \
void S##_resize(V<T>* p, u64 n) { p->resize(n); } \
void S##_resize_v(V<T>* p, u64 n, const T* v) { p->resize(n, *v); } \
void S##_swap(V<T>* p, V<T>* q) { p->swap(*q); } \
void S##_std_swap(V<T>* p, V<T>* q) { std::swap(*p, *q); } \
T* S##_insert_c(V<T>* p, u64 i, const T* v) { return p->insert(p->cbegin() + (long)i, *v).operator->(); } \
T* S##_insert_n(V<T>* p, u64 i, u64 n, const T* v) { return p->insert(p->cbegin() + (long)i, n, *v).operator->(); } \
T* S##_insert_r(V<T>* p, u64 i, const T* a, const T* b) { return p->insert(p->cbegin() + (long)i, a, b).operator->(); } \
T* S##_emplace(V<T>* p, u64 i, u64 x) { return p->emplace(p->begin() + (long)i, x).operator->(); } \
T* S##_emplace_i(V<T>* p, u64 i, u64 x) { return p->emplace((u64)i, x).operator->(); }
#define MOVABLE(S, T) \
void S##_push_m(V<T>* p, T* v) { p->push_back(std::move(*v)); } \
T* S##_insert_m(V<T>* p, u64 i, T* v) { return p->insert(p->cbegin() + (long)i, std::move(*v)).operator->(); }
#define POD(S, T) \
void S##_resize_unsafe(V<T>* p, u64 n) { p->template resize<Safety::Unsafe>(n); } \
void S##_fill(V<T>* p, u64 (*f)(T*)) { p->fill(f); } \
void S##_fill_unsafe(V<T>* p, u64 (*f)(T*)) { p->template fill<Safety::Unsafe>(f); } \
T* S##_writebuffer(V<T>* p, u64 n) { return p->get_writebuffer(n).data(); } \
u64 S##_writebuffer_size(V<T>* p, u64 n) { return p->get_writebuffer(n).size(); } \
T* S##_writebuffer_unsafe(V<T>* p, u64 n) { return p->template get_writebuffer<Safety::Unsafe>(n).data(); }
#define ORDERED(S, T) \
bool S##_eq(const V<T>* p, const V<T>* q) { return *p == *q; } \
bool S##_ne(const V<T>* p, const V<T>* q) { return *p != *q; } \
int S##_cmp(const V<T>* p, const V<T>* q) { auto r = *p <=> *q; return r < 0 ? -1 : r > 0 ? 1 : 0; } \
bool S##_lt(const V<T>* p, const V<T>* q) { return *p < *q; }
COMMON(w, u64) MOVABLE(w, u64) POD(w, u64) ORDERED(w, u64)
COMMON(b, u8) MOVABLE(b, u8) POD(b, u8) ORDERED(b, u8)
COMMON(m, M) MOVABLE(m, M) ORDERED(m, M)
COMMON(c, C)
COMMON(r, R) MOVABLE(r, R)
void g_push_c(V<B>* p, const B* v) { p->push_back(*v); }
}
