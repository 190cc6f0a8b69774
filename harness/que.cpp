#include "cest/queue.hpp"
#include <iterator>
#include <new>
#include <utility>
#include "elem.hpp"
template <class R> struct It {
  using iterator_category = std::random_access_iterator_tag;
  using value_type = E;
  using difference_type = std::ptrdiff_t;
  using pointer = R *;
  using reference = R &;
  R *p;
  R &operator*() const { return *p; }
  R *operator->() const { return p; }
  R &operator[](std::ptrdiff_t n) const { return p[n]; }
  It &operator++() { ++p; return *this; }
  It &operator--() { --p; return *this; }
  It operator++(int) { return It{p++}; }
  It operator--(int) { return It{p--}; }
  It &operator+=(std::ptrdiff_t n) { p += n; return *this; }
  It &operator-=(std::ptrdiff_t n) { p -= n; return *this; }
  It operator+(std::ptrdiff_t n) const { return It{p + n}; }
  It operator-(std::ptrdiff_t n) const { return It{p - n}; }
  std::ptrdiff_t operator-(It o) const { return p - o.p; }
  bool operator==(It o) const { return p == o.p; }
  bool operator!=(It o) const { return p != o.p; }
  bool operator<(It o) const { return p < o.p; }
};
// a container known only through the interface a queue may use
struct C {
  using value_type = E;
  using size_type = std::size_t;
  using reference = E &;
  using const_reference = const E &;
  void *id;
  std::size_t lo, hi;
  C() noexcept;
  C(const C &) noexcept;
  C(C &&) noexcept;
  C &operator=(const C &) noexcept;
  C &operator=(C &&) noexcept;
  ~C();
  bool empty() const noexcept;
  std::size_t size() const noexcept;
  E &front() noexcept;
  const E &front() const noexcept;
  E &back() noexcept;
  const E &back() const noexcept;
  void push_back(const E &) noexcept;
  void push_back(E &&) noexcept;
  void pop_front() noexcept;
  void push_front(const E &) noexcept;
  void push_front(E &&) noexcept;
  void pop_back() noexcept;
  void clear() noexcept;
  E &operator[](std::size_t) noexcept;
  const E &operator[](std::size_t) const noexcept;
  It<E> begin() noexcept { return It<E>{begin_()}; }
  E *begin_() noexcept;
  It<const E> begin() const noexcept { return It<const E>{begin_()}; }
  const E *begin_() const noexcept;
  It<E> end() noexcept { return It<E>{end_()}; }
  E *end_() noexcept;
  It<const E> end() const noexcept { return It<const E>{end_()}; }
  const E *end_() const noexcept;
};
using Q = cest::queue<E, C>;
extern "C" {
void h_default(Q *p) { new (p) Q(); }
void h_copyc(Q *p, const C &c) { new (p) Q(c); }
void h_movec(Q *p, C &c) { new (p) Q(std::move(c)); }
void h_copy(Q *p, const Q &q) { new (p) Q(q); }
void h_move(Q *p, Q &q) { new (p) Q(std::move(q)); }
void h_dtor(Q &q) { q.~Q(); }
bool h_empty(const Q &q) { return q.empty(); }
std::size_t h_size(const Q &q) { return q.size(); }
E *h_front(Q &q) { return &q.front(); }
const E *h_cfront(const Q &q) { return &q.front(); }
E *h_back(Q &q) { return &q.back(); }
const E *h_cback(const Q &q) { return &q.back(); }
void h_push(Q &q, const E &e) { q.push(e); }
void h_pushm(Q &q, E &e) { q.push(std::move(e)); }
void h_pushself(Q &q) { q.push(q.front()); }
void h_pop(Q &q) { q.pop(); }
}
