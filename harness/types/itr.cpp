// type-level witnesses: the operations of iterators and what they yield
#include "all.hpp"
#include <iterator>
#include <type_traits>
#include <utility>
#define STR(...) #__VA_ARGS__
#define IS(C, A, B) static_assert(std::is_same_v<decltype(A), B>, "{" C "} " STR(A) " is not " STR(B))
#define YES(C, ...) static_assert(__VA_ARGS__, "{" C "} " STR(__VA_ARGS__))
template <class T> T &m();
template <class T> const T &c();
struct E { int a; bool operator==(const E &) const; bool operator<(const E &) const; };
using std::is_convertible_v; using std::is_same_v; using std::is_constructible_v; using std::is_nothrow_copy_constructible_v;
template <class I> using tr = std::iterator_traits<I>;

struct WITNESSES;   // everything after this line is a witness
#define COMMON(N, I, T, REF) \
  IS(N, ++m<I>(), I &); IS(N, m<I>()++, I); IS(N, *c<I>(), REF); IS(N, *m<I>(), REF); \
  YES(N, is_same_v<decltype(c<I>() == c<I>()), bool>); YES(N, is_same_v<decltype(c<I>() != c<I>()), bool>); \
  YES(N, is_same_v<tr<I>::reference, REF>); YES(N, is_same_v<tr<I>::value_type, T>); \
  YES(N, is_same_v<tr<I>::pointer, std::remove_reference_t<REF> *>); YES(N, is_same_v<tr<I>::difference_type, std::ptrdiff_t>); \
  YES(N, std::is_copy_constructible_v<I>); YES(N, std::is_copy_assignable_v<I>); YES(N, std::is_destructible_v<I>);
#define ARROW(N, I, REF) YES(N, is_same_v<decltype(&*c<I>()), std::remove_reference_t<REF> *>); \
  YES(N, is_same_v<decltype(&(c<I>()->a)), decltype(&(std::declval<REF>().a))>);
#define BACK(N, I) IS(N, --m<I>(), I &); IS(N, m<I>()--, I);
#define CONV(N, X) YES(N, is_convertible_v<X::iterator, X::const_iterator>); YES(N, is_constructible_v<X::const_iterator, X::iterator>); \
  YES(N, is_same_v<decltype(m<X>().begin() == m<X>().end()), bool>); YES(N, is_same_v<decltype(c<X>().begin() == c<X>().end()), bool>); \
  YES(N, is_same_v<decltype(m<X>().begin() != m<X>().end()), bool>); YES(N, is_same_v<decltype(c<X>().begin() != c<X>().end()), bool>);

using L = cest::list<E>;
COMMON("list", L::iterator, E, E &) COMMON("list", L::const_iterator, E, const E &) ARROW("list", L::iterator, E &) ARROW("list", L::const_iterator, const E &)
BACK("list", L::iterator) BACK("list", L::const_iterator) CONV("list", L)
using F = cest::forward_list<E>;
COMMON("forward_list", F::iterator, E, E &) COMMON("forward_list", F::const_iterator, E, const E &) ARROW("forward_list", F::iterator, E &) ARROW("forward_list", F::const_iterator, const E &)
CONV("forward_list", F)
using D = cest::deque<E>;
COMMON("deque", D::iterator, E, E &) COMMON("deque", D::const_iterator, E, const E &) ARROW("deque", D::iterator, E &) ARROW("deque", D::const_iterator, const E &)
BACK("deque", D::iterator) BACK("deque", D::const_iterator) CONV("deque", D)
YES("deque", is_convertible_v<decltype(c<D::iterator>() - c<D::iterator>()), std::ptrdiff_t>);
YES("deque", is_convertible_v<decltype(c<D::const_iterator>() - c<D::const_iterator>()), std::ptrdiff_t>);
YES("deque", std::is_signed_v<decltype(c<D::iterator>() - c<D::iterator>())>);
using S = cest::set<E>;
COMMON("set", S::iterator, E, const E &) ARROW("set", S::iterator, const E &) COMMON("set", S::const_iterator, E, const E &) ARROW("set", S::const_iterator, const E &) CONV("set", S)
YES("set", is_same_v<tr<S::iterator>::reference, const E &>);
struct P { int a; };
using M = cest::map<int, P>;
COMMON("map", M::iterator, M::value_type, M::value_type &) COMMON("map", M::const_iterator, M::value_type, const M::value_type &) CONV("map", M)
YES("map", is_same_v<decltype(&(c<M::iterator>()->second)), P *>); YES("map", is_same_v<decltype(&(c<M::const_iterator>()->second)), const P *>);
YES("map", is_same_v<decltype(&(c<M::iterator>()->first)), const int *>);
using V = cest::vector<E>;
COMMON("vector", V::iterator, E, E &) COMMON("vector", V::const_iterator, E, const E &) BACK("vector", V::iterator) BACK("vector", V::const_iterator) CONV("vector", V)
YES("vector", std::contiguous_iterator<V::iterator>); YES("vector", std::contiguous_iterator<V::const_iterator>);
using B = cest::string;
COMMON("string", B::iterator, char, char &) COMMON("string", B::const_iterator, char, const char &) BACK("string", B::iterator) BACK("string", B::const_iterator) CONV("string", B)
YES("string", std::contiguous_iterator<B::iterator>); YES("string", std::contiguous_iterator<B::const_iterator>);
#define REV(N, X) YES(N, is_same_v<X::reverse_iterator, std::reverse_iterator<X::iterator>>); YES(N, is_same_v<X::const_reverse_iterator, std::reverse_iterator<X::const_iterator>>);
REV("vector", V) REV("string", B) REV("list", L) REV("deque", D)
// an iterator has the operations of the category it claims
template <class I> inline constexpr int claims = std::is_base_of_v<std::random_access_iterator_tag, typename tr<I>::iterator_category> ? 3 : std::is_base_of_v<std::bidirectional_iterator_tag, typename tr<I>::iterator_category> ? 2
  : std::is_base_of_v<std::forward_iterator_tag, typename tr<I>::iterator_category> ? 1 : 0;
#define CAT(N, I) YES(N, std::input_iterator<I>); YES(N, claims<I> < 1 || std::forward_iterator<I>); YES(N, claims<I> < 2 || std::bidirectional_iterator<I>); YES(N, claims<I> < 3 || std::random_access_iterator<I>); \
  YES(N, claims<I> >= 1);
CAT("list", L::iterator) CAT("list", L::const_iterator) CAT("forward_list", F::iterator) CAT("forward_list", F::const_iterator) CAT("deque", D::iterator) CAT("deque", D::const_iterator)
CAT("vector", V::iterator) CAT("vector", V::const_iterator) CAT("string", B::iterator) CAT("string", B::const_iterator)
CAT("set", S::iterator) CAT("set", S::const_iterator) CAT("map", M::iterator) CAT("map", M::const_iterator)
