#include "cest/forward_list.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
#include "alloc.hpp"
using L = cest::forward_list<E, AL<E>>;
using It = L::iterator;
using Ct = L::const_iterator;
using sz = std::size_t;
extern "C" {
void h_default(L *p) { new (p) L(); }
void h_copy(L *p, const L &o) { new (p) L(o); }
void h_move(L *p, L &o) { new (p) L(std::move(o)); }
void h_dtor(L &l) { l.~L(); }
L &h_assign(L &l, const L &o) { return l = o; }
L &h_selfassign(L &l) { return l = l; }
L &h_massign(L &l, L &o) { return l = std::move(o); }
void h_swap(L &l, L &o) { l.swap(o); }
void h_clear(L &l) { l.clear(); }
void h_push_front(L &l, const E &x) { l.push_front(x); }
void h_push_frontm(L &l, E &x) { l.push_front(std::move(x)); }
void h_push_frontself(L &l) { l.push_front(l.front()); }
It h_insert(L &l, Ct p, const E &x) { return l.insert_after(p, x); }
It h_insertm(L &l, Ct p, E &x) { return l.insert_after(p, std::move(x)); }
It h_insertself(L &l, Ct p, It q) { return l.insert_after(p, *q); }
It h_erase(L &l, Ct p) { return l.erase_after(p); }
It h_erase2(L &l, Ct p, Ct q) { return l.erase_after(p, q); }
void h_pop_front(L &l) { l.pop_front(); }
bool h_empty(const L &l) { return l.empty(); }
E *h_front(L &l) { return &l.front(); }
const E *h_cfront(const L &l) { return &l.front(); }
It h_before_begin(L &l) { return l.before_begin(); }
It h_begin(L &l) { return l.begin(); }
It h_end(L &l) { return l.end(); }
Ct h_ccbegin(const L &l) { return l.begin(); }
Ct h_ccend(const L &l) { return l.end(); }
Ct h_cbegin(const L &l) { return l.cbegin(); }
Ct h_cend(const L &l) { return l.cend(); }
E *h_deref(It i) { return &*i; }
E *h_arrow(It i) { return i.operator->(); }
const E *h_cderef(Ct i) { return &*i; }
const E *h_carrow(Ct i) { return i.operator->(); }
#define ITER(T, P) \
  T h_##P##inc(T *i) { return ++*i; } \
  T *h_##P##incr(T *i) { return &++*i; } \
  T h_##P##incp(T *i) { return (*i)++; } \
  bool h_##P##eq(T i, T j) { return i == j; } \
  bool h_##P##ne(T i, T j) { return i != j; }
ITER(It, i)
ITER(Ct, c)
Ct h_conv(It i) { return i; }
}
