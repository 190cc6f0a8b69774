#include "cest/set.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
#include "alloc.hpp"
// an order on keys and on a second type keys can be looked up with
struct K2 { long v; };
struct C {
  bool operator()(const E &, const E &) const noexcept;
  bool operator()(const E &, const K2 &) const noexcept;
  bool operator()(const K2 &, const E &) const noexcept;
};
using S = cest::set<E, C, AL<E>>;
using V = E;
#include "tree.hpp"
