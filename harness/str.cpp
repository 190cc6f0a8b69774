#include "cest/string.hpp"
#include <new>
#include <utility>
#include <iterator>
#ifdef OWN_ALLOCATOR
#include "alloc.hpp"
using Al = AL<char>;
using S = cest::basic_string<char, std::char_traits<char>, Al>;
#elif defined(OWN_TRAITS)
using Al = std::allocator<char>;
using S = cest::basic_string<char, TR, Al>;
#else
using Al = std::allocator<char>;
using S = cest::string;
#endif
using sz = std::size_t;
struct It {
  using iterator_category = std::input_iterator_tag;
  using value_type = char;
  using difference_type = std::ptrdiff_t;
  using pointer = const char *;
  using reference = const char &;
  const char *p;
  const char &operator*() const { return *p; }
  It &operator++() { ++p; return *this; }
  It operator++(int) { It t = *this; ++p; return t; }
  bool operator==(const It &o) const { return p == o.p; }
  bool operator!=(const It &o) const { return p != o.p; }
};
extern "C" {
void h_default(S *p) { new (p) S(); }
void h_alloc(S *p) { Al a; new (p) S(a); }
void h_ptrcount(S *p, const char *s, sz n) { new (p) S(s, n); }
void h_cstr(S *p, const char *s) { new (p) S(s); }
void h_copy(S *p, const S &o) { new (p) S(o); }
void h_move(S *p, S &o) { new (p) S(std::move(o)); }
void h_range(S *p, const char *b, const char *e) { new (p) S(It{b}, It{e}); }
void h_dtor(S &s) { s.~S(); }
S &h_assign(S &s, const S &o) { return s = o; }
S &h_massign(S &s, S &o) { return s = std::move(o); }
S &h_assigncs(S &s, const char *c) { return s = c; }
S &h_assignn(S &s, const char *c, sz n) { return s.assign(c, n); }
void h_clear(S &s) { s.clear(); }
void h_pop(S &s) { s.pop_back(); }
void h_push(S &s, char c) { s.push_back(c); }
void h_pushref(S &s, const char &c) { s.push_back(c); }
S &h_pluschar(S &s, char c) { return s += c; }
S &h_plus(S &s, const S &o) { return s += o; }
S &h_append(S &s, const S &o) { return s.append(o); }
S &h_appendn(S &s, const char *c, sz n) { return s.append(c, n); }
void h_reserve(S &s, sz n) { s.reserve(n); }
sz h_find(const S &s, const S &o, sz pos) { return s.find(o, pos); }
sz h_find0(const S &s, const S &o) { return s.find(o); }
sz h_findc(const S &s, char c, sz pos) { return s.find(c, pos); }
sz h_findc0(const S &s, char c) { return s.find(c); }
sz h_findn(const S &s, const char *c, sz pos, sz n) { return s.find(c, pos, n); }
sz h_findz(const S &s, const char *c, sz pos) { return s.find(c, pos); }
sz h_findz0(const S &s, const char *c) { return s.find(c); }
int h_compare(const S &s, const S &o) { return s.compare(o); }
int h_comparez(const S &s, const char *o) { return s.compare(o); }
bool h_eq(const S &s, const S &o) { return s == o; }
bool h_ne(const S &s, const S &o) { return s != o; }
bool h_lt(const S &s, const S &o) { return s < o; }
bool h_eqz(const S &s, const char *o) { return s == o; }
bool h_zeq(const S &s, const char *o) { return o == s; }
bool h_nez(const S &s, const char *o) { return s != o; }
bool h_zne(const S &s, const char *o) { return o != s; }
bool h_ltz(const S &s, const char *o) { return s < o; }
bool h_zlt(const S &s, const char *o) { return o < s; }
sz h_size(const S &s) { return s.size(); }
sz h_length(const S &s) { return s.length(); }
sz h_capacity(const S &s) { return s.capacity(); }
bool h_empty(const S &s) { return s.empty(); }
char *h_begin(S &s) { return s.begin(); }
const char *h_cbegin(const S &s) { return s.begin(); }
const char *h_ccbegin(const S &s) { return s.cbegin(); }
char *h_end(S &s) { return s.end(); }
const char *h_cend(const S &s) { return s.end(); }
const char *h_ccend(const S &s) { return s.cend(); }
char *h_data(S &s) { return s.data(); }
const char *h_cdata(const S &s) { return s.data(); }
const char *h_c_str(const S &s) { return s.c_str(); }
char *h_front(S &s) { return &s.front(); }
const char *h_cfront(const S &s) { return &s.front(); }
char *h_back(S &s) { return &s.back(); }
const char *h_cback(const S &s) { return &s.back(); }
char *h_index(S &s, sz i) { return &s[i]; }
const char *h_cindex(const S &s, sz i) { return &s[i]; }
}
