// type-level witnesses: what const access may and may not do
#include "all.hpp"
#include <type_traits>
#include <utility>
#define STR(...) #__VA_ARGS__
#define IS(C, A, B) static_assert(std::is_same_v<decltype(A), B>, "{" C "} " STR(A) " is not " STR(B))
#define YES(C, ...) static_assert(__VA_ARGS__, "{" C "} " STR(__VA_ARGS__))
template <class T> T &m();              // a mutable object
template <class T> const T &c();        // the same through const access
struct E { int a; bool operator==(const E &) const; bool operator<(const E &) const; };
using std::is_assignable_v; using std::is_convertible_v; using std::is_constructible_v; using std::is_same_v;
// is the statement valid for a const object o, a mutable object mu, elements x and cx?  (dependent, so that it may be invalid)
#define VALID(T, ...) ([]<class X_>(X_ *) { return requires(const X_ &o, X_ &mu, E x, const E &cx, char &ch, char *p, const char *s) { __VA_ARGS__; }; }((T *)nullptr))
#define NO_CALL(C, T, ...) static_assert(!VALID(T, __VA_ARGS__), "{" C "} '" STR(__VA_ARGS__) "' must not compile (o: const object, cx: const element)")
#define CAN_CALL(C, T, ...) static_assert(VALID(T, __VA_ARGS__), "{" C "} '" STR(__VA_ARGS__) "' must compile (o: const object)")

struct WITNESSES;   // everything after this line is a witness
// iterators of a container X<E>
#define ITER(N, X) \
  YES(N, !is_convertible_v<X::const_iterator, X::iterator>); \
  YES(N, !is_constructible_v<X::iterator, X::const_iterator>); \
  YES(N, !is_assignable_v<X::iterator &, X::const_iterator>); \
  YES(N, is_convertible_v<X::iterator, X::const_iterator>); \
  IS(N, *m<X::iterator>(), E &); \
  IS(N, *c<X::iterator>(), E &); \
  YES(N, is_same_v<decltype(m<X::iterator>()->a), int> && is_assignable_v<decltype((m<X::iterator>()->a)), int>);
#define CITER(N, X) \
  IS(N, *m<X::const_iterator>(), const X::value_type &); \
  IS(N, *c<X::const_iterator>(), const X::value_type &); \
  YES(N, !is_assignable_v<decltype(*m<X::const_iterator>()), X::value_type>); \
  YES(N, is_same_v<std::iterator_traits<X::const_iterator>::reference, const X::value_type &>); \
  IS(N, ++m<X::const_iterator>(), X::const_iterator &); \
  IS(N, m<X::const_iterator>()++, X::const_iterator); \
  YES(N, is_same_v<X::reference, X::value_type &>); \
  YES(N, is_same_v<X::const_reference, const X::value_type &>);
#define RANGE(N, X) \
  IS(N, c<X>().begin(), X::const_iterator); IS(N, c<X>().end(), X::const_iterator); \
  IS(N, c<X>().cbegin(), X::const_iterator); IS(N, c<X>().cend(), X::const_iterator); \
  IS(N, m<X>().cbegin(), X::const_iterator); IS(N, m<X>().cend(), X::const_iterator);
#define MRANGE(N, X) IS(N, m<X>().begin(), X::iterator); IS(N, m<X>().end(), X::iterator);
#define ENDS(N, X, ...) IS(N, c<X>().front(), const E &); IS(N, m<X>().front(), E &); __VA_OPT__(IS(N, c<X>().back(), const E &); IS(N, m<X>().back(), E &);)
#define INDEX(N, X) IS(N, c<X>()[0], const E &); IS(N, m<X>()[0], E &);
#define SIZES(N, X) CAN_CALL(N, X, o.size(); o.empty());
#define ASSIGN(N, X) YES(N, !is_assignable_v<const X &, const X &>); YES(N, !is_assignable_v<const X &, X>); YES(N, is_assignable_v<X &, const X &>);

using V = cest::vector<E>;
ITER("vector", V) CITER("vector", V) RANGE("vector", V) MRANGE("vector", V) ENDS("vector", V, 1) INDEX("vector", V) SIZES("vector", V) ASSIGN("vector", V)
IS("vector", c<V>().at(0), const E &); IS("vector", m<V>().at(0), E &);
IS("vector", c<V>().data(), const E *); IS("vector", m<V>().data(), E *);
IS("vector", *c<V>().rbegin(), const E &); IS("vector", *m<V>().rbegin(), E &);
IS("vector", *--c<V>().rend(), const E &); IS("vector", *--m<V>().rend(), E &);
NO_CALL("vector", V, o.push_back(cx)); NO_CALL("vector", V, o.push_back(std::move(x))); NO_CALL("vector", V, o.pop_back()); NO_CALL("vector", V, o.clear());
NO_CALL("vector", V, o.resize(1)); NO_CALL("vector", V, o.reserve(1)); NO_CALL("vector", V, o.erase(o.begin(), o.end())); NO_CALL("vector", V, o.swap(mu)); NO_CALL("vector", V, mu.swap(o));
CAN_CALL("vector", V, o.capacity(); o == o);

using D = cest::deque<E>;
ITER("deque", D) CITER("deque", D) RANGE("deque", D) MRANGE("deque", D) ENDS("deque", D, 1) INDEX("deque", D) SIZES("deque", D) ASSIGN("deque", D)
NO_CALL("deque", D, o.push_back(cx)); NO_CALL("deque", D, o.push_front(cx)); NO_CALL("deque", D, o.pop_back()); NO_CALL("deque", D, o.pop_front()); NO_CALL("deque", D, o.clear());
NO_CALL("deque", D, o.push_back(std::move(x))); NO_CALL("deque", D, o.push_front(std::move(x)));
IS("deque", --m<D::const_iterator>(), D::const_iterator &); IS("deque", m<D::const_iterator>()--, D::const_iterator);

using L = cest::list<E>;
ITER("list", L) CITER("list", L) RANGE("list", L) MRANGE("list", L) ENDS("list", L, 1) SIZES("list", L) ASSIGN("list", L)
NO_CALL("list", L, o.push_back(cx)); NO_CALL("list", L, o.push_front(cx)); NO_CALL("list", L, o.pop_back()); NO_CALL("list", L, o.pop_front()); NO_CALL("list", L, o.clear());
NO_CALL("list", L, o.insert(o.begin(), cx)); NO_CALL("list", L, o.erase(o.begin())); NO_CALL("list", L, o.emplace(o.begin(), cx)); NO_CALL("list", L, o.emplace_back(cx)); NO_CALL("list", L, o.emplace_front(cx));
IS("list", m<L>().emplace_back(c<E>()), E &); IS("list", m<L>().emplace_front(c<E>()), E &);

using F = cest::forward_list<E>;
ITER("forward_list", F) CITER("forward_list", F) RANGE("forward_list", F) MRANGE("forward_list", F) ENDS("forward_list", F) ASSIGN("forward_list", F)
NO_CALL("forward_list", F, o.push_front(cx)); NO_CALL("forward_list", F, o.pop_front()); NO_CALL("forward_list", F, o.clear()); NO_CALL("forward_list", F, o.swap(mu)); NO_CALL("forward_list", F, mu.swap(o));
NO_CALL("forward_list", F, o.insert_after(o.begin(), cx)); NO_CALL("forward_list", F, o.erase_after(o.begin())); NO_CALL("forward_list", F, o.erase_after(o.begin(), o.end()));
NO_CALL("forward_list", F, *o.before_begin() = x);
CAN_CALL("forward_list", F, o.empty());

using S = cest::set<E>;
CITER("set", S) RANGE("set", S) SIZES("set", S) ASSIGN("set", S)
IS("set", *m<S>().begin(), const E &); IS("set", *m<S::iterator>(), const E &);
IS("set", *m<S>().find(c<E>()), const E &); IS("set", *c<S>().find(c<E>()), const E &); IS("set", *m<S>().insert(c<E>()).first, const E &);
IS("set", m<S::iterator>().operator->(), const E *); IS("set", m<S::const_iterator>().operator->(), const E *);
NO_CALL("set", S, o.insert(cx)); NO_CALL("set", S, o.clear()); NO_CALL("set", S, *mu.begin() = x); NO_CALL("set", S, mu.begin()->a = 1); NO_CALL("set", S, mu.find(cx)->a = 1); NO_CALL("set", S, mu.insert(cx).first->a = 1);

using M = cest::map<E, int>;
CITER("map", M) RANGE("map", M) SIZES("map", M) ASSIGN("map", M)
YES("map", is_same_v<M::value_type, std::pair<const E, int>>);
YES("map", !is_convertible_v<M::const_iterator, M::iterator>); YES("map", !is_constructible_v<M::iterator, M::const_iterator>); YES("map", is_convertible_v<M::iterator, M::const_iterator>);
IS("map", *m<M::iterator>(), M::value_type &); IS("map", m<M::const_iterator>().operator->(), const M::value_type *);
IS("map", *c<M>().find(c<E>()), const M::value_type &); IS("map", *m<M>().find(c<E>()), M::value_type &); IS("map", *m<M>().insert(m<M::value_type>()).first, M::value_type &);
NO_CALL("map", M, o.insert({cx, 1})); NO_CALL("map", M, o.clear()); NO_CALL("map", M, o.find(cx)->second = 1); NO_CALL("map", M, mu.find(cx)->first = x); NO_CALL("map", M, o.begin()->second = 1); NO_CALL("map", M, mu.cbegin()->second = 1);
NO_CALL("map", M, o[cx]);
CAN_CALL("map", M, mu.find(cx)->second = 1);

using Q = cest::queue<E>;
ENDS("queue", Q, 1) SIZES("queue", Q) ASSIGN("queue", Q)
NO_CALL("queue", Q, o.push(cx)); NO_CALL("queue", Q, o.push(std::move(x))); NO_CALL("queue", Q, o.pop());

using T = cest::string;
IS("string", c<T>().front(), const char &); IS("string", m<T>().front(), char &); IS("string", c<T>().back(), const char &); IS("string", m<T>().back(), char &);
IS("string", c<T>()[0], const char &); IS("string", m<T>()[0], char &);
IS("string", c<T>().data(), const char *); IS("string", m<T>().data(), char *); IS("string", c<T>().c_str(), const char *); IS("string", m<T>().c_str(), const char *);
RANGE("string", T) MRANGE("string", T) ASSIGN("string", T) SIZES("string", T)
IS("string", *c<T>().begin(), const char &); IS("string", *m<T>().begin(), char &); IS("string", *m<T>().cbegin(), const char &);
YES("string", !is_convertible_v<T::const_iterator, T::iterator>);
NO_CALL("string", T, o.push_back('a')); NO_CALL("string", T, o.pop_back()); NO_CALL("string", T, o.clear()); NO_CALL("string", T, o.append("a", 1)); NO_CALL("string", T, o.append(mu)); NO_CALL("string", T, o += mu); NO_CALL("string", T, o += 'a');
NO_CALL("string", T, o = s); NO_CALL("string", T, o.assign("a", 1)); NO_CALL("string", T, o.reserve(1)); NO_CALL("string", T, o[0] = 'a');
CAN_CALL("string", T, o.find(o); o.find("a"); o.find('a'); o == o; o == "a"; o != o; o < o; o.compare(o); o.capacity());

using I = cest::istringstream;
NO_CALL("istringstream", I, o.get()); NO_CALL("istringstream", I, o.unget()); NO_CALL("istringstream", I, o.clear()); NO_CALL("istringstream", I, o.setstate(cest::ios_base::failbit)); NO_CALL("istringstream", I, o.str(c<T>()));
NO_CALL("istringstream", I, o.get(ch)); NO_CALL("istringstream", I, o.read(p, 1));
CAN_CALL("istringstream", I, o.rdstate(); o.good(); o.eof(); o.fail(); o.gcount(); o.str(); static_cast<bool>(o); !o);
IS("istringstream", c<I>().str(), T);
NO_CALL("ostream", cest::ostream, o << 1); NO_CALL("ostream", cest::ostream, o.flush()); CAN_CALL("ostream", cest::ostream, mu << 1);

using U = cest::unique_ptr<E>; using H = cest::shared_ptr<E>;
YES("unique_ptr", !is_assignable_v<const U &, U>); YES("unique_ptr", !is_assignable_v<U &, const U &>); YES("unique_ptr", !std::is_copy_constructible_v<U>); YES("unique_ptr", std::is_move_constructible_v<U>);
NO_CALL("unique_ptr", U, o.reset()); NO_CALL("unique_ptr", U, o.release());
YES("shared_ptr", !is_assignable_v<const H &, H>); YES("shared_ptr", is_assignable_v<H &, const H &>);
YES("shared_ptr", !is_convertible_v<cest::shared_ptr<const E>, cest::shared_ptr<E>>);
using FN = cest::function<int(int)>;
YES("complex", !is_assignable_v<const cest::complex<double> &, cest::complex<double>>); NO_CALL("complex", cest::complex<double>, o += mu); NO_CALL("complex", cest::complex<double>, o.real(1.0));
