#include "cest/list.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
#include "alloc.hpp"
using L = cest::list<E, AL<E>>;
using It = L::iterator;
using Ct = L::const_iterator;
using sz = std::size_t;
extern "C" {
void h_default(L *p) { new (p) L(); }
void h_copy(L *p, const L &o) { new (p) L(o); }
void h_move(L *p, L &o) { new (p) L(std::move(o)); }
void h_dtor(L &l) { l.~L(); }
L &h_assign(L &l, const L &o) { return l = o; }
L &h_selfassign(L &l) { return l = l; }
L &h_massign(L &l, L &o) { return l = std::move(o); }
void h_clear(L &l) { l.clear(); }
void h_push_back(L &l, const E &x) { l.push_back(x); }
void h_push_backm(L &l, E &x) { l.push_back(std::move(x)); }
void h_push_front(L &l, const E &x) { l.push_front(x); }
void h_push_frontm(L &l, E &x) { l.push_front(std::move(x)); }
void h_push_backself(L &l) { l.push_back(l.front()); }
void h_push_frontself(L &l) { l.push_front(l.back()); }
It h_insert(L &l, Ct p, const E &x) { return l.insert(p, x); }
It h_insertm(L &l, Ct p, E &x) { return l.insert(p, std::move(x)); }
It h_insertself(L &l, Ct p, It q) { return l.insert(p, *q); }
It h_emplace(L &l, Ct p, const E &x) { return l.emplace(p, x); }
It h_emplacem(L &l, Ct p, E &x) { return l.emplace(p, std::move(x)); }
It h_emplace0(L &l, Ct p) { return l.emplace(p); }
E *h_emplace_back(L &l, const E &x) { return &l.emplace_back(x); }
E *h_emplace_front(L &l, const E &x) { return &l.emplace_front(x); }
E *h_emplace_backm(L &l, E &x) { return &l.emplace_back(std::move(x)); }
E *h_emplace_frontm(L &l, E &x) { return &l.emplace_front(std::move(x)); }
It h_erase(L &l, Ct p) { return l.erase(p); }
void h_pop_back(L &l) { l.pop_back(); }
void h_pop_front(L &l) { l.pop_front(); }
sz h_size(const L &l) { return l.size(); }
bool h_empty(const L &l) { return l.empty(); }
E *h_front(L &l) { return &l.front(); }
E *h_back(L &l) { return &l.back(); }
const E *h_cfront(const L &l) { return &l.front(); }
const E *h_cback(const L &l) { return &l.back(); }
It h_begin(L &l) { return l.begin(); }
It h_end(L &l) { return l.end(); }
Ct h_ccbegin(const L &l) { return l.begin(); }
Ct h_ccend(const L &l) { return l.end(); }
Ct h_cbegin(const L &l) { return l.cbegin(); }
Ct h_cend(const L &l) { return l.cend(); }
E *h_deref(It i) { return &*i; }
E *h_arrow(It i) { return i.operator->(); }
const E *h_cderef(Ct i) { return &*i; }
const E *h_carrow(Ct i) { return i.operator->(); }
#define ITER(T, P) \
  T h_##P##inc(T *i) { return ++*i; } \
  T *h_##P##incr(T *i) { return &++*i; } \
  T h_##P##incp(T *i) { return (*i)++; } \
  bool h_##P##eq(T i, T j) { return i == j; } \
  bool h_##P##ne(T i, T j) { return i != j; }
#define DITER(T, P) \
  T h_##P##dec(T *i) { return --*i; } \
  T *h_##P##decr(T *i) { return &--*i; } \
  T h_##P##decp(T *i) { return (*i)--; }
ITER(It, i)
ITER(Ct, c)
DITER(It, i)
DITER(Ct, c)
Ct h_conv(It i) { return i; }
}
