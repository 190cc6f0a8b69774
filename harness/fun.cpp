#include "cest/functional.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
struct F {
  void *tag;
  F(const F &) noexcept;
  F(F &&) noexcept;
  ~F();
  long operator()(long, E &, const E &, E &&);
  void operator()(E &, long);
  E &operator()(E *, long, long);
  long operator()(E);
  void operator()(const E &, const E &, long);
  void operator()(E &&, const E &, long);
  void operator()(const E &, E &&, long);
  void operator()(E &&, E &&, long);
};
struct P { long a, b; };
using FV = cest::function<long(long, E &, const E &, E &&)>;
using FN = cest::function<void(E &, long)>;
using FR = cest::function<E &(E *, long, long)>;
using FE = cest::function<long(E)>;
using FW = cest::function<void(E, E &&, long)>;
extern "C" long ext_fun(long, E &, const E &, E &&);
extern "C" void ext_proc(E &, long);
extern "C" {
void h_v_lval(FV *p, F &f) { new (p) FV(f); }
void h_v_clval(FV *p, const F &f) { new (p) FV(f); }
void h_n_clval(FN *p, const F &f) { new (p) FN(f); }
void h_v_rval(FV *p, F &f) { new (p) FV(std::move(f)); }
void h_v_ptr(FV *p) { new (p) FV(&ext_fun); }
void h_v_guide(FV *p) { new (p) FV(cest::function(&ext_fun)); }
void h_v_move(FV *p, FV &o) { new (p) FV(std::move(o)); }
FV *h_v_massign(FV &a, FV &b) { return &(a = std::move(b)); }
long h_v_call(FV &f, long x, E &a, const E &b, E &c) { return f(x, a, b, std::move(c)); }
void h_v_dtor(FV &f) { f.~FV(); }
void h_n_lval(FN *p, F &f) { new (p) FN(f); }
void h_n_rval(FN *p, F &f) { new (p) FN(std::move(f)); }
void h_n_ptr(FN *p) { new (p) FN(&ext_proc); }
void h_v_fref(FV *p) { new (p) FV(ext_fun); }
void h_n_fref(FN *p) { new (p) FN(ext_proc); }
void h_n_move(FN *p, FN &o) { new (p) FN(std::move(o)); }
void h_n_call(FN &f, E &a, long x) { f(a, x); }
void h_n_dtor(FN &f) { f.~FN(); }
void h_r_rval(FR *p, F &f) { new (p) FR(std::move(f)); }
E *h_r_call(FR &f, E *a, long x, long y) { return &f(a, x, y); }
void h_r_dtor(FR &f) { f.~FR(); }
void h_e_rval(FE *p, F &f) { new (p) FE(std::move(f)); }
long h_e_call(FE &f, const E &a) { return f(a); }
void h_e_dtor(FE &f) { f.~FE(); }
void h_w_lval(FW *p, F &f) { new (p) FW(f); }
void h_w_rval(FW *p, F &f) { new (p) FW(std::move(f)); }
void h_w_call(FW &f, const E &a, E &b, long x) { f(a, std::move(b), x); }
void h_w_dtor(FW &f) { f.~FW(); }
}
