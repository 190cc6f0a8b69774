#include "cest/map.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
#include "alloc.hpp"
struct K2 { long v; };
struct C {
  bool operator()(const E &, const E &) const noexcept;
  bool operator()(const E &, const K2 &) const noexcept;
  bool operator()(const K2 &, const E &) const noexcept;
};
using S = cest::map<E, E, C, AL<std::pair<const E, E>>>;
using V = std::pair<const E, E>;
#define IS_MAP 1
#include "tree.hpp"
