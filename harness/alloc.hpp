// an allocator with a state-free identity of its own: storage it hands out has
// to come back to it, with the same size
#ifndef VERIF_ALLOC_HPP
#define VERIF_ALLOC_HPP
#include <cstddef>
extern "C" void *ext_alloc(std::size_t bytes) noexcept;
extern "C" void ext_dealloc(void *, std::size_t bytes) noexcept;
template <class T> struct AL {
  using value_type = T;
  constexpr AL() noexcept {}
  template <class U> constexpr AL(const AL<U> &) noexcept {}
  T *allocate(std::size_t n) noexcept { return static_cast<T *>(ext_alloc(n * sizeof(T))); }
  void deallocate(T *p, std::size_t n) noexcept { ext_dealloc(p, n * sizeof(T)); }
};
template <class T, class U> bool operator==(const AL<T> &, const AL<U> &) noexcept { return true; }
#endif
