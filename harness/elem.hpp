// An element type and an allocator about which nothing is known but their
// signatures: every operation on them is an event of the analysis.
#ifndef VERIF_ELEM_HPP
#define VERIF_ELEM_HPP
#include <cstddef>
struct E {
  void *p;
  E() noexcept;
  E(const E &) noexcept;
  E(E &&) noexcept;
  E &operator=(const E &) noexcept;
  E &operator=(E &&) noexcept;
  ~E();
};
bool operator==(const E &, const E &) noexcept;
bool operator<(const E &, const E &) noexcept;
template <class T> struct A {
  using value_type = T;
  constexpr A() noexcept {}
  template <class U> constexpr A(const A<U> &) noexcept {}
  T *allocate(std::size_t) noexcept;
  void deallocate(T *, std::size_t) noexcept;
};
template <class T, class U> bool operator==(const A<T> &, const A<U> &) noexcept { return true; }
#endif
