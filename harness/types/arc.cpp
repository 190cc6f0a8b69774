// element, key, comparison and deleter types that provide exactly what an
// operation is documented to need: every function that does not compile is a
// requirement the library invented
#include "../all.hpp"
#include <initializer_list>
#include <memory>
#include <utility>
struct WITNESSES;

// no comparison, no address-of, no default constructor, whatever else is given
#define BARE(N) \
  friend bool operator==(const N &, const N &) = delete; \
  friend bool operator!=(const N &, const N &) = delete; \
  friend bool operator<(const N &, const N &) = delete; \
  friend bool operator>(const N &, const N &) = delete; \
  friend bool operator<=(const N &, const N &) = delete; \
  friend bool operator>=(const N &, const N &) = delete; \
  void operator!() const = delete;
struct Cp { int i; explicit constexpr Cp(int x) : i(x) {} Cp(const Cp &); Cp &operator=(const Cp &) = delete; ~Cp(); BARE(Cp) };
struct Ca { int i; explicit constexpr Ca(int x) : i(x) {} Ca(const Ca &); Ca &operator=(const Ca &); ~Ca(); BARE(Ca) };
struct Mv { int i; explicit constexpr Mv(int x) : i(x) {} Mv(Mv &&); Mv &operator=(Mv &&) = delete; ~Mv(); BARE(Mv) };
struct Ma { int i; explicit constexpr Ma(int x) : i(x) {} Ma(Ma &&); Ma &operator=(Ma &&); ~Ma(); BARE(Ma) };
struct Df { int i; Df(); Df(const Df &); Df &operator=(const Df &) = delete; ~Df(); BARE(Df) };
struct Dm { int i; Dm(); Dm(Dm &&); Dm &operator=(Dm &&) = delete; ~Dm(); BARE(Dm) };
struct Eq { int i; Eq(const Eq &); Eq &operator=(const Eq &) = delete; bool operator==(const Eq &) const; void operator!() const = delete;
  friend bool operator!=(const Eq &, const Eq &) = delete; friend bool operator<(const Eq &, const Eq &) = delete; };
// an order with state
struct Ord { bool operator()(const Cp &, const Cp &) const; };
struct Key { int i; };
struct OrdK { using is_transparent = void; bool operator()(const Cp &, const Cp &) const; bool operator()(const Cp &, const Key &) const; bool operator()(const Key &, const Cp &) const; };
// the least an allocator has to provide
template <class T> struct Al { using value_type = T; Al() noexcept; template <class U> Al(const Al<U> &) noexcept; T *allocate(std::size_t); void deallocate(T *, std::size_t);
  friend bool operator==(const Al &, const Al &) { return true; } };

#define W(N) void w_##N
// vector
using VCp = cest::vector<Cp, Al<Cp>>;
W(vec_default)() { VCp v; cest::vector<Mv, Al<Mv>> w; (void)v; (void)w; }
W(vec_copy)(const VCp &o) { VCp v(o); (void)v; }
W(vec_move)(cest::vector<Mv, Al<Mv>> &o) { cest::vector<Mv, Al<Mv>> v(std::move(o)); (void)v; }
W(vec_massign)(cest::vector<Mv, Al<Mv>> &o, cest::vector<Mv, Al<Mv>> &v) { v = std::move(o); }
W(vec_init)(std::initializer_list<Cp> l) { VCp v(l); (void)v; }
W(vec_count)(std::size_t n) { cest::vector<Dm, Al<Dm>> v(n); (void)v; }
W(vec_assign)(cest::vector<Ca, Al<Ca>> &v, const cest::vector<Ca, Al<Ca>> &o) { v = o; }
W(vec_swap)(cest::vector<Mv, Al<Mv>> &v, cest::vector<Mv, Al<Mv>> &o) { v.swap(o); }
W(vec_reserve)(cest::vector<Mv, Al<Mv>> &v) { v.reserve(4); }
W(vec_resize)(cest::vector<Dm, Al<Dm>> &v) { v.resize(4); }
W(vec_push)(VCp &v, const Cp &x) { v.push_back(x); }
W(vec_pushm)(cest::vector<Mv, Al<Mv>> &v, Mv &x) { v.push_back(std::move(x)); }
W(vec_pop)(cest::vector<Mv, Al<Mv>> &v) { v.pop_back(); v.clear(); }
W(vec_erase)(cest::vector<Ca, Al<Ca>> &v) { v.erase(v.begin(), v.end()); }
W(vec_access)(cest::vector<Mv, Al<Mv>> &v) { (void)v.front(); (void)v.back(); (void)v.at(0); (void)v[0]; (void)v.size(); (void)v.empty(); (void)v.capacity(); (void)v.data(); (void)*v.begin(); (void)(v.begin() == v.end()); (void)*v.rbegin(); (void)(v.rbegin() == v.rend()); }
W(vec_caccess)(const cest::vector<Mv, Al<Mv>> &v) { (void)v.front(); (void)v.back(); (void)v.at(0); (void)v[0]; (void)v.size(); (void)v.empty(); (void)v.capacity(); (void)v.data(); (void)*v.begin(); (void)(v.begin() == v.end()); (void)*v.rbegin(); (void)(v.rbegin() == v.rend()); }
W(vec_equal)(const cest::vector<Eq, Al<Eq>> &v, const cest::vector<Eq, Al<Eq>> &o) { (void)(v == o); (void)(v != o); }
// list
using LCp = cest::list<Cp, Al<Cp>>;
W(list_default)() { LCp v; (void)v; }
W(list_copy)(const LCp &o) { LCp v(o); (void)v; }
W(list_assign)(LCp &v, const LCp &o) { v = o; }
W(list_push)(LCp &v, const Cp &x) { v.push_back(x); v.push_front(x); }
W(list_pushm)(LCp &v, Cp &x) { v.push_back(std::move(x)); v.push_front(std::move(x)); }
W(list_insert)(LCp &v, const Cp &x) { v.insert(v.begin(), x); v.insert(v.cbegin(), x); }
W(list_emplace)(LCp &v) { v.emplace(v.begin(), 1); v.emplace_back(1); v.emplace_front(1); }
W(list_erase)(LCp &v) { v.erase(v.begin()); v.pop_back(); v.pop_front(); v.clear(); }
W(list_access)(LCp &v, const LCp &c) { (void)v.front(); (void)v.back(); (void)v.size(); (void)v.empty(); (void)*v.begin(); (void)(v.begin() == v.end()); (void)c.front(); (void)c.back(); (void)*c.begin(); (void)(c.begin() == c.end()); (void)v.get_allocator(); (void)v.max_size(); }
W(list_mv)(cest::list<Mv, Al<Mv>> &v, Mv &x) { v.push_back(std::move(x)); v.push_front(std::move(x)); v.insert(v.cbegin(), std::move(x)); v.emplace(v.cbegin(), std::move(x)); v.emplace_back(std::move(x)); v.emplace_front(std::move(x)); v.erase(v.begin()); v.clear(); }
// forward_list
using FCp = cest::forward_list<Cp, Al<Cp>>;
W(fwd_default)() { FCp v; (void)v; }
W(fwd_copy)(const FCp &o) { FCp v(o); (void)v; }
W(fwd_assign)(FCp &v, const FCp &o) { v = o; v.swap(v); }
W(fwd_push)(FCp &v, const Cp &x) { v.push_front(x); v.insert_after(v.begin(), x); }
W(fwd_pushm)(FCp &v, Cp &x) { v.push_front(std::move(x)); v.insert_after(v.begin(), std::move(x)); }
W(fwd_erase)(FCp &v) { v.erase_after(v.before_begin()); v.erase_after(v.begin(), v.end()); v.pop_front(); v.clear(); }
W(fwd_access)(FCp &v, const FCp &c) { (void)v.front(); (void)v.empty(); (void)*v.begin(); (void)(v.begin() == v.end()); (void)c.front(); (void)*c.begin(); (void)c.empty(); (void)v.get_allocator(); }
W(fwd_mv)(cest::forward_list<Mv, Al<Mv>> &v, Mv &x) { v.push_front(std::move(x)); v.insert_after(v.begin(), std::move(x)); v.pop_front(); v.clear(); }
// deque
using DCp = cest::deque<Cp, Al<Cp>>;
using DMv = cest::deque<Mv, Al<Mv>>;
W(deque_default)() { DCp v; DMv w; (void)v; (void)w; }
W(deque_copy)(const DCp &o) { DCp v(o); (void)v; }
W(deque_init)(std::initializer_list<Cp> l) { DCp v(l); (void)v; }
W(deque_assign)(DCp &v, const DCp &o) { v = o; }
W(deque_push)(DCp &v, const Cp &x) { v.push_back(x); v.push_front(x); }
W(deque_pushm)(DMv &v, Mv &x) { v.push_back(std::move(x)); v.push_front(std::move(x)); }
W(deque_pop)(DMv &v) { v.pop_back(); v.pop_front(); v.clear(); }
W(deque_access)(DMv &v, const DMv &c) { (void)v.front(); (void)v.back(); (void)v.size(); (void)v.empty(); (void)v[0]; (void)*v.begin(); (void)(v.begin() == v.end()); (void)c.front(); (void)c.back(); (void)c[0]; (void)*c.begin(); (void)(c.begin() == c.end()); (void)(v.end() - v.begin()); }
// queue
W(queue_all)(cest::queue<Mv, DMv> &q, Mv &x) { q.push(std::move(x)); (void)q.front(); (void)q.back(); q.pop(); (void)q.size(); (void)q.empty(); }
W(queue_copy)(const DCp &c, const Cp &x) { cest::queue<Cp, DCp> q(c); q.push(x); }
// set
using SCp = cest::set<Cp, Ord, Al<Cp>>;
using SKp = cest::set<Cp, OrdK, Al<Cp>>;
W(set_default)() { SCp s; (void)s; }
W(set_copy)(const SCp &o) { SCp s(o); (void)s; }
W(set_assign)(SCp &s, const SCp &o) { s = o; }
W(set_insert)(SCp &s, const Cp &x) { (void)s.insert(x); (void)s.insert(s.end(), x); }
W(set_find)(SCp &s, const SCp &c, const Cp &x) { (void)s.find(x); (void)c.find(x); }
W(set_findk)(SKp &s, const SKp &c, const Key &x) { (void)s.find(x); (void)c.find(x); }
W(set_access)(SCp &s, const SCp &c) { (void)s.size(); (void)s.empty(); s.clear(); (void)*s.begin(); (void)(s.begin() == s.end()); (void)*c.begin(); (void)(c.begin() != c.end()); auto i = s.begin(); ++i; i++; (void)i->i; }
// map: the mapped type needs nothing but to be copied
using MCp = cest::map<Cp, Cp, Ord, Al<std::pair<const Cp, Cp>>>;
using MKp = cest::map<Cp, Cp, OrdK, Al<std::pair<const Cp, Cp>>>;
W(map_default)() { MCp s; (void)s; }
W(map_copy)(const MCp &o) { MCp s(o); (void)s; }
W(map_assign)(MCp &s, const MCp &o) { s = o; }
W(map_insert)(MCp &s, const std::pair<const Cp, Cp> &x) { (void)s.insert(x); }
W(map_find)(MCp &s, const MCp &c, const Cp &x) { (void)s.find(x); (void)c.find(x); }
W(map_findk)(MKp &s, const MKp &c, const Key &x) { (void)s.find(x); (void)c.find(x); }
W(map_access)(MCp &s, const MCp &c) { (void)s.size(); (void)s.empty(); s.clear(); (void)*s.begin(); (void)*c.begin(); (void)(c.begin() != c.end()); auto i = c.begin(); ++i; i++; (void)i->first; }
// strings
using Str = cest::basic_string<char, std::char_traits<char>, Al<char>>;
using Wst = cest::basic_string<char16_t, std::char_traits<char16_t>, Al<char16_t>>;
template <class S, class C> void strings(S &s, const S &c, const C *p) {
  S a, b(p), d(p, 3), e(c); (void)a; (void)b; (void)d; (void)e;
  s = c; s = p; s += c; s += p[0]; s.append(p, 2); s.append(c); s.assign(p, 2); s.push_back(p[0]); s.pop_back(); s.reserve(9); s.clear();
  (void)s.find(p[0]); (void)s.find(p); (void)s.find(p, 1, 2); (void)c.compare(p); (void)c.compare(c);
  (void)s[0]; (void)c[0]; (void)s.front(); (void)s.back(); (void)s.c_str(); (void)s.data(); (void)s.get_allocator(); (void)s.capacity(); (void)s.length();
  (void)(s == c); (void)(s == p); (void)(p == s);
}
W(str_char)(Str &s, const Str &c, const char *p) { strings(s, c, p); }
W(str_char16)(Wst &s, const Wst &c, const char16_t *p) { strings(s, c, p); }
// pointers
struct Pin { Pin(int, Mv &&); Pin(const Pin &) = delete; Pin &operator=(const Pin &) = delete; ~Pin(); BARE(Pin) };
struct Del { explicit Del(int); Del(const Del &); void operator()(Pin *) const; };
W(unique_all)(Mv &m) { auto p = cest::make_unique<Pin>(1, std::move(m)); cest::unique_ptr<Pin> q(std::move(p)); q = std::move(p); q.reset(); (void)q.get(); (void)q.release(); (void)*q; (void)(q == p); (void)bool(q); }
W(shared_all)(Pin *x) { cest::shared_ptr<Pin> p(x), q, r(p); q = p; (void)q.use_count(); (void)q.get(); (void)*q; (void)bool(q); cest::shared_ptr<Pin> n(nullptr); (void)n; }
W(shared_del)(Pin *x) { cest::shared_ptr<Pin> p(x, Del(1)); (void)get_deleter<Del>(p); }
W(shared_fun)(Pin *x, void (*f)(Pin *)) { cest::shared_ptr<Pin> p(x, f); (void)p; }
W(shared_alias)(cest::shared_ptr<Pin> &p, Pin *m) { cest::shared_ptr<Pin> q(p, m); (void)q; }
// swap and function
W(swap2)(Ma &a, Ma &b) { nary::swap(a, b); nary::swapr(a, b); }
W(swap4)(Ma &a, Ma &b, Ma &c, Ma &d) { nary::swap(a, b, c, d); nary::swapr(a, b, c, d); }
struct Fun { Fun(const Fun &); Fun &operator=(const Fun &) = delete; Pin &operator()(Pin &, Mv) const; };
W(fun_call)(Fun &f, Pin &p, Mv &m) { cest::function<Pin &(Pin &, Mv)> g(std::move(f)); (void)g(p, std::move(m)); }
