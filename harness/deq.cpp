#include "cest/deque.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
#include "alloc.hpp"
using D = cest::deque<E, AL<E>>;
using It = D::iterator;
using Ct = D::const_iterator;
using sz = std::size_t;
extern "C" {
void h_default(D *p) { new (p) D(); }
void h_alloc(D *p, const AL<E> &a) { new (p) D(a); }
void h_copy(D *p, const D &o) { new (p) D(o); }
void h_move(D *p, D &o) { new (p) D(std::move(o)); }
void h_init(D *p, const std::initializer_list<E> &l) { new (p) D(l); }
void h_dtor(D &d) { d.~D(); }
D &h_assign(D &d, const D &o) { return d = o; }
D &h_selfassign(D &d) { return d = d; }
D &h_massign(D &d, D &o) { return d = std::move(o); }
void h_clear(D &d) { d.clear(); }
void h_push_back(D &d, const E &x) { d.push_back(x); }
void h_push_backm(D &d, E &x) { d.push_back(std::move(x)); }
void h_push_front(D &d, const E &x) { d.push_front(x); }
void h_push_frontm(D &d, E &x) { d.push_front(std::move(x)); }
void h_push_backself(D &d, sz i) { d.push_back(d[i]); }
void h_push_frontself(D &d, sz i) { d.push_front(d[i]); }
void h_pop_back(D &d) { d.pop_back(); }
void h_pop_front(D &d) { d.pop_front(); }
sz h_size(const D &d) { return d.size(); }
bool h_empty(const D &d) { return d.empty(); }
E *h_front(D &d) { return &d.front(); }
E *h_back(D &d) { return &d.back(); }
const E *h_cfront(const D &d) { return &d.front(); }
const E *h_cback(const D &d) { return &d.back(); }
E *h_index(D &d, sz i) { return &d[i]; }
const E *h_cindex(const D &d, sz i) { return &d[i]; }
void h_begin(It *r, D &d) { new (r) It(d.begin()); }
void h_end(It *r, D &d) { new (r) It(d.end()); }
void h_ccbegin(Ct *r, const D &d) { new (r) Ct(d.begin()); }
void h_ccend(Ct *r, const D &d) { new (r) Ct(d.end()); }
void h_cbegin(Ct *r, const D &d) { new (r) Ct(d.cbegin()); }
void h_cend(Ct *r, const D &d) { new (r) Ct(d.cend()); }
E *h_deref(It &i) { return &*i; }
E *h_arrow(It &i) { return i.operator->(); }
const E *h_cderef(Ct &i) { return &*i; }
const E *h_carrow(Ct &i) { return i.operator->(); }
#define ITER(T, P) \
  void h_##P##inc(T *r, T *i) { new (r) T(++*i); } \
  T *h_##P##incr(T *i) { return &++*i; } \
  void h_##P##incp(T *r, T *i) { new (r) T((*i)++); } \
  void h_##P##dec(T *r, T *i) { new (r) T(--*i); } \
  T *h_##P##decr(T *i) { return &--*i; } \
  void h_##P##decp(T *r, T *i) { new (r) T((*i)--); } \
  bool h_##P##eq(T &i, T &j) { return i == j; } \
  bool h_##P##ne(T &i, T &j) { return i != j; } \
  std::ptrdiff_t h_##P##diff(T &i, T &j) { return i - j; }
ITER(It, i)
ITER(Ct, c)
void h_conv(Ct *r, It &i) { new (r) Ct(i); }
using VC = cest::vector<E *>;
sz h_vsize(const VC &v) { return v.size(); }
sz h_vcapacity(const VC &v) { return v.capacity(); }
E *const *h_vdata(const VC &v) { return v.data(); }
}
