// entry points shared by set and map
using It = S::iterator;
using Ct = S::const_iterator;
using sz = std::size_t;
struct R { It i; bool b; };
extern "C" {
void h_default(S *p) { new (p) S(); }
void h_copy(S *p, const S &o) { new (p) S(o); }
void h_move(S *p, S &o) { new (p) S(std::move(o)); }
void h_dtor(S &s) { s.~S(); }
S &h_assign(S &s, const S &o) { return s = o; }
S &h_selfassign(S &s) { return s = s; }
S &h_massign(S &s, S &o) { return s = std::move(o); }
void h_clear(S &s) { s.clear(); }
void h_insert(R *r, S &s, const V &v) { auto x = s.insert(v); new (r) R{x.first, x.second}; }
#ifndef IS_MAP
void h_inserthint(It *r, S &s, Ct h, const V &v) { new (r) It(s.insert(h, v)); }
#endif
void h_find(It *r, S &s, const E &k) { new (r) It(s.find(k)); }
void h_cfind(Ct *r, const S &s, const E &k) { new (r) Ct(s.find(k)); }
void h_find2(It *r, S &s, const K2 &k) { new (r) It(s.find(k)); }
void h_cfind2(Ct *r, const S &s, const K2 &k) { new (r) Ct(s.find(k)); }
sz h_size(const S &s) { return s.size(); }
bool h_empty(const S &s) { return s.empty(); }
void h_begin(Ct *r, S &s) { new (r) Ct(s.begin()); }
void h_end(It *r, S &s) { new (r) It(s.end()); }
void h_ccbegin(Ct *r, const S &s) { new (r) Ct(s.begin()); }
void h_ccend(Ct *r, const S &s) { new (r) Ct(s.end()); }
void h_cbegin(Ct *r, const S &s) { new (r) Ct(s.cbegin()); }
void h_cend(Ct *r, const S &s) { new (r) Ct(s.cend()); }
#define ITER(T, P) \
  const void *h_##P##deref(T *i) { return &**i; } \
  const void *h_##P##arrow(T *i) { return i->operator->(); } \
  void h_##P##inc(T *r, T *i) { new (r) T(++*i); } \
  T *h_##P##incr(T *i) { return &++*i; } \
  void h_##P##incp(T *r, T *i) { new (r) T((*i)++); } \
  bool h_##P##eq(T &i, T &j) { return i == j; } \
  bool h_##P##ne(T &i, T &j) { return i != j; }
ITER(It, i)
#ifdef IS_MAP
ITER(Ct, c)
void h_conv(Ct *r, It &i) { new (r) Ct(i); }
#endif
}
