#include "cest/memory.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
using U = cest::unique_ptr<E>;
struct First { E a; };
struct Second { E b; };
struct Both : First, Second { };
using UB = cest::unique_ptr<Second>;
extern "C" {
void h_convert(UB *p, cest::unique_ptr<Both> &o) { new (p) UB(std::move(o)); }
void h_default(U *p) { new (p) U(); }
void h_ctor(U *p, E *q) { new (p) U(q); }
void h_move(U *p, U &o) { new (p) U(std::move(o)); }
U &h_massign(U &a, U &b) { return a = std::move(b); }
void h_dtor(U &u) { u.~U(); }
E *h_get(const U &u) { return u.get(); }
E *h_release(U &u) { return u.release(); }
void h_reset(U &u, E *p) { u.reset(p); }
void h_reset0(U &u) { u.reset(); }
bool h_bool(const U &u) { return bool(u); }
E *h_deref(U &u) { return &*u; }
const E *h_cderef(const U &u) { return &*u; }
void **h_arrow(U &u) { return &u->p; }
void **h_carrow(const U &u) { return &u->p; }
bool h_eq(const U &a, const U &b) { return a == b; }
bool h_ne(const U &a, const U &b) { return a != b; }
bool h_lt(const U &a, const U &b) { return a < b; }
bool h_le(const U &a, const U &b) { return a <= b; }
bool h_gt(const U &a, const U &b) { return a > b; }
bool h_ge(const U &a, const U &b) { return a >= b; }
void h_make(U *p, const E &x) { new (p) U(cest::make_unique<E>(x)); }
void h_makem(U *p, E &x) { new (p) U(cest::make_unique<E>(std::move(x))); }
}
