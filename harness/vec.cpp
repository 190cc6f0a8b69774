#include "cest/vector.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
using V = cest::vector<E, A<E>>;
using sz = std::size_t;
extern "C" {
void h_default(V *p) { new (p) V(); }
void h_count(V *p, sz n) { new (p) V(n); }
void h_init(V *p, const std::initializer_list<E> &l) { new (p) V(l); }
void h_copy(V *p, const V &o) { new (p) V(o); }
void h_move(V *p, V &o) { new (p) V(std::move(o)); }
void h_dtor(V &v) { v.~V(); }
V &h_assign(V &v, const V &o) { return v = o; }
V &h_massign(V &v, V &o) { return v = std::move(o); }
void h_swap(V &v, V &o) { v.swap(o); }
void h_reserve(V &v, sz n) { v.reserve(n); }
void h_resize(V &v, sz n) { v.resize(n); }
void h_clear(V &v) { v.clear(); }
void h_push(V &v, const E &x) { v.push_back(x); }
void h_pushm(V &v, E &x) { v.push_back(std::move(x)); }
void h_pop(V &v) { v.pop_back(); }
E *h_erase(V &v, E *a, E *b) { return v.erase(a, b); }
E *h_at(V &v, sz i) { return &v.at(i); }
const E *h_cat(const V &v, sz i) { return &v.at(i); }
E *h_index(V &v, sz i) { return &v[i]; }
const E *h_cindex(const V &v, sz i) { return &v[i]; }
sz h_size(const V &v) { return v.size(); }
sz h_capacity(const V &v) { return v.capacity(); }
bool h_empty(const V &v) { return v.empty(); }
E *h_begin(V &v) { return v.begin(); }
E *h_end(V &v) { return v.end(); }
const E *h_cbegin(const V &v) { return v.begin(); }
const E *h_cend(const V &v) { return v.end(); }
const E *h_ccbegin(const V &v) { return v.cbegin(); }
const E *h_ccend(const V &v) { return v.cend(); }
E *h_front(V &v) { return &v.front(); }
E *h_back(V &v) { return &v.back(); }
const E *h_cfront(const V &v) { return &v.front(); }
const E *h_cback(const V &v) { return &v.back(); }
E *h_data(V &v) { return v.data(); }
const E *h_cdata(const V &v) { return v.data(); }
E *h_rat(V &v, sz i) { return &v.rbegin()[static_cast<std::ptrdiff_t>(i)]; }
const E *h_crat(const V &v, sz i) { return &v.rbegin()[static_cast<std::ptrdiff_t>(i)]; }
std::ptrdiff_t h_rlen(V &v) { return v.rend() - v.rbegin(); }
std::ptrdiff_t h_crlen(const V &v) { return v.rend() - v.rbegin(); }
bool h_eq(const V &v, const V &o) { return v == o; }
bool h_ne(const V &v, const V &o) { return v != o; }
}
