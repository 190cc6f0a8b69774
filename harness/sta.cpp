// containers constructed with an allocator that has an identity: everything
// they obtain has to come from it and go back to it
#include "cest/vector.hpp"
#include "cest/deque.hpp"
#include "cest/string.hpp"
#include <initializer_list>
#include <new>
#include <utility>
#include "elem.hpp"
extern "C" void *ext_alloc_id(void *id, std::size_t bytes) noexcept;
extern "C" void ext_dealloc_id(void *id, void *, std::size_t bytes) noexcept;
template <class T> struct AS {
  using value_type = T;
  void *id;
  constexpr AS() noexcept : id(nullptr) {}
  template <class U> constexpr AS(const AS<U> &o) noexcept : id(o.id) {}
  T *allocate(std::size_t n) noexcept { return static_cast<T *>(ext_alloc_id(id, n * sizeof(T))); }
  void deallocate(T *p, std::size_t n) noexcept { ext_dealloc_id(id, p, n * sizeof(T)); }
};
template <class T, class U> bool operator==(const AS<T> &a, const AS<U> &b) noexcept { return a.id == b.id; }
using A_ = AS<E>;
using V = cest::vector<E, A_>;
using D = cest::deque<E, A_>;
using S = cest::basic_string<char, std::char_traits<char>, AS<char>>;
using C_ = AS<char>;
using L_ = std::initializer_list<E>;
extern "C" {
void h_vec_count(const A_ &a, const A_ &, const E &, const char *, std::size_t) { V v(2, a); }
void h_vec_init(const A_ &a, const A_ &, const E &x, const char *, std::size_t) { V v({x, x, x}, a); }
void h_vec_push(const A_ &a, const A_ &, const E &x, const char *, std::size_t) { V v(0, a); v.push_back(x); v.push_back(x); v.push_back(E()); }
void h_vec_room(const A_ &a, const A_ &, const E &, const char *, std::size_t n) { V v(0, a); v.reserve(n); }
void h_vec_resize(const A_ &a, const A_ &, const E &, const char *, std::size_t n) { V v(0, a); v.resize(n); }
void h_vec_move(const A_ &a, const A_ &, const E &x, const char *, std::size_t) { V v(2, a); V w(std::move(v)); w.push_back(x); }
void h_vec_moveassign(const A_ &a, const A_ &b, const E &x, const char *, std::size_t) { V v(2, a); { V w(3, b); w = std::move(v); w.push_back(x); } v = V(1, b); }
void h_vec_assign(const A_ &a, const A_ &b, const E &, const char *, std::size_t) { V v(1, a); V w(3, b); v = w; }
void h_vec_swap(const A_ &a, const A_ &b, const E &x, const char *, std::size_t) { V v(1, a); V w(3, b); v.swap(w); v.push_back(x); w.push_back(x); }
void h_deq_alloc(const A_ &a, const A_ &, const E &, const char *, std::size_t) { D d(a); }
void h_deq_init(const A_ &a, const A_ &, const E &x, const char *, std::size_t) { D d({x}, a); }
void h_deq_assign(const A_ &a, const A_ &b, const E &x, const char *, std::size_t) { D d({x}, a); D e({x, x}, b); d = e; }
void h_str_alloc(const C_ &a, const C_ &, const E &, const char *, std::size_t) { S s(a); }
void h_str_count(const C_ &a, const C_ &, const E &, const char *p, std::size_t n) { S s(p, n, a); }
void h_str_cstr(const C_ &a, const C_ &, const E &, const char *p, std::size_t) { S s(p, a); }
void h_str_push(const C_ &a, const C_ &, const E &, const char *p, std::size_t n) { S s(p, n, a); s.push_back('x'); }
void h_str_reserve(const C_ &a, const C_ &, const E &, const char *p, std::size_t n) { S s(a); s.reserve(n); }
void h_str_append(const C_ &a, const C_ &, const E &, const char *p, std::size_t n) { S s(a); s.append(p, n); }
void h_str_reassign(const C_ &a, const C_ &, const E &, const char *p, std::size_t n) { S s(a); s.assign(p, n); }
void h_str_assign(const C_ &a, const C_ &b, const E &, const char *p, std::size_t n) { S s(a), t(p, n, b); s = t; }
}
