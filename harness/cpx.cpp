#include "cest/complex.hpp"
#include <new>
using T = double;
using C = cest::complex<T>;
using F = cest::complex<float>;
struct N {       // a real number type that is not a built-in one
  double v;
  constexpr N(double x = 0) : v(x) {}
};
constexpr N operator+(const N &a, const N &b) { return N(a.v + b.v); }
constexpr N operator-(const N &a, const N &b) { return N(a.v - b.v); }
constexpr N operator-(const N &a) { return N(-a.v); }
constexpr N operator*(const N &a, const N &b) { return N(a.v * b.v); }
constexpr N operator/(const N &a, const N &b) { return N(a.v / b.v); }
extern "C" {
T h_norm2(const cest::complex<N> &a) { return cest::norm(a).v; }
void h_ctor0(C *r) { new (r) C(); }
void h_ctor1(C *r, T x) { new (r) C(x); }
void h_ctor2(C *r, T x, T y) { new (r) C(x, y); }
void h_copy(C *r, const C &a) { new (r) C(a); }
void h_conv(C *r, const F &a) { new (r) C(a); }
T h_real(const C &a) { return a.real(); }
T h_imag(const C &a) { return a.imag(); }
T h_freal(const C &a) { return cest::real(a); }
T h_fimag(const C &a) { return cest::imag(a); }
void h_setreal(C &a, T x) { a.real(x); }
void h_setimag(C &a, T x) { a.imag(x); }
C *h_set(C &a, const C &b) { return &(a = b); }
C *h_setf(C &a, const F &b) { return &(a = b); }
C *h_sett(C &a, const T &x) { return &(a = x); }
#define COMP(N, O) \
  C *h_##N##c(C &a, const C &b) { return &(a O## = b); } \
  C *h_##N##f(C &a, const F &b) { return &(a O## = b); } \
  C *h_##N##t(C &a, const T &x) { return &(a O## = x); } \
  C *h_##N##s(C &a) { return &(a O## = a); } \
  void h_##N(C *r, const C &a, const C &b) { new (r) C(a O b); } \
  void h_##N##r(C *r, const C &a, const T &x) { new (r) C(a O x); } \
  void h_##N##l(C *r, const T &x, const C &a) { new (r) C(x O a); }
#undef COMP
#define COMP(N, O, A) \
  C *h_##N##c(C &a, const C &b) { return &(a A b); } \
  C *h_##N##f(C &a, const F &b) { return &(a A b); } \
  C *h_##N##t(C &a, const T &x) { return &(a A x); } \
  C *h_##N##s(C &a) { return &(a A a); } \
  void h_##N(C *r, const C &a, const C &b) { new (r) C(a O b); } \
  void h_##N##r(C *r, const C &a, const T &x) { new (r) C(a O x); } \
  void h_##N##l(C *r, const T &x, const C &a) { new (r) C(x O a); }
COMP(add, +, +=)
COMP(sub, -, -=)
COMP(mul, *, *=)
COMP(div, /, /=)
void h_pos(C *r, const C &a) { new (r) C(+a); }
void h_neg(C *r, const C &a) { new (r) C(-a); }
void h_conj(C *r, const C &a) { new (r) C(cest::conj(a)); }
T h_norm(const C &a) { return cest::norm(a); }
bool h_eq(const C &a, const C &b) { return a == b; }
bool h_ne(const C &a, const C &b) { return a != b; }
bool h_eqr(const C &a, const T &x) { return a == x; }
bool h_ner(const C &a, const T &x) { return a != x; }
bool h_eql(const T &x, const C &a) { return x == a; }
bool h_nel(const T &x, const C &a) { return x != a; }
// functions
T h_abs(const C &a) { return cest::abs(a); }
T h_arg(const C &a) { return cest::arg(a); }
void h_polar(C *r, const T &x, const T &y) { new (r) C(cest::polar(x, y)); }
#define FUN(N) void h_##N(C *r, const C &a) { new (r) C(cest::N(a)); }
FUN(cos) FUN(cosh) FUN(exp) FUN(log) FUN(log10) FUN(sin) FUN(sinh) FUN(sqrt) FUN(tan) FUN(tanh)
void h_powi(C *r, const C &a, int n) { new (r) C(cest::pow(a, n)); }
void h_powt(C *r, const C &a, const T &x) { new (r) C(cest::pow(a, x)); }
void h_powc(C *r, const C &a, const C &b) { new (r) C(cest::pow(a, b)); }
void h_powl(C *r, const T &x, const C &a) { new (r) C(cest::pow(x, a)); }
}
