#include "cest/shared_ptr.hpp"
#include <new>
#include <utility>
#include "elem.hpp"
struct D {
  void *tag;
  D() noexcept;
  D(const D &) noexcept;
  D(D &&) noexcept;
  D &operator=(const D &) noexcept;
  D &operator=(D &&) noexcept;
  ~D();
  void operator()(E *) const noexcept;
};
struct D2 {
  void *tag;
  D2() noexcept;
  D2(const D2 &) noexcept;
  ~D2();
  void operator()(E *) const noexcept;
};
using S = cest::shared_ptr<E>;
using SA = cest::shared_ptr<E[]>;
struct W { void *first; E second; };
using SW = cest::shared_ptr<W>;
struct Base { E a; };
struct Der : Base { E b; };
using SB = cest::shared_ptr<Base>;
extern "C" {
void h_bctor(SB *p, Der *q) { new (p) SB(q); }
void h_bdtor(SB &s) { s.~SB(); }
long h_buse_count(const SB &s) { return s.use_count(); }
Base *h_bget(const SB &s) { return s.get(); }
void h_default(S *p) { new (p) S(); }
void h_null(S *p) { new (p) S(nullptr); }
void h_ctor(S *p, E *q) { new (p) S(q); }
void h_ctord(S *p, E *q, const D &d) { new (p) S(q, d); }
void h_copy(S *p, const S &o) { new (p) S(o); }
void h_move(S *p, S &o) { new (p) S(std::move(o)); }
void h_alias(S *p, const S &o, E *q) { new (p) S(o, q); }
S &h_assign(S &a, const S &b) { return static_cast<S &>(a = b); }
S &h_massign(S &a, S &b) { return static_cast<S &>(a = std::move(b)); }
void h_dtor(S &s) { s.~S(); }
long h_use_count(const S &s) { return s.use_count(); }
E *h_get(const S &s) { return s.get(); }
E *h_deref(const S &s) { return &*s; }
void **h_arrow(const S &s) { return &s->p; }
bool h_bool(const S &s) { return bool(s); }
D *h_get_deleter(const S &s) { return get_deleter<D>(s); }
D2 *h_get_deleter2(const S &s) { return get_deleter<D2>(s); }

void h_adefault(SA *p) { new (p) SA(); }
void h_actor(SA *p, E *q) { new (p) SA(q); }
void h_actord(SA *p, E *q, const D &d) { new (p) SA(q, d); }
void h_acopy(SA *p, const SA &o) { new (p) SA(o); }
SA &h_aassign(SA &a, const SA &b) { return static_cast<SA &>(a = b); }
void h_adtor(SA &s) { s.~SA(); }
long h_ause_count(const SA &s) { return s.use_count(); }
E *h_aget(const SA &s) { return s.get(); }
E *h_aindex(const SA &s, std::ptrdiff_t i) { return &s[i]; }
bool h_abool(const SA &s) { return bool(s); }
E *h_anew(std::size_t n) { return new E[n]; }
}
