#include "cest/swap.hpp"
#include "elem.hpp"
#define R1 E &a
#define R2 R1, E &b
#define R3 R2, E &c
#define R4 R3, E &d
#define R5 R4, E &e
#define R6 R5, E &f
#define R7 R6, E &g
#define R8 R7, E &h
extern "C" {
void h_swap0() { nary::swap(); }
void h_swapr0() { nary::swapr(); }
#define DEF(n, P, ...) \
  void h_swap##n(P) { nary::swap(__VA_ARGS__); } \
  void h_swapr##n(P) { nary::swapr(__VA_ARGS__); }
DEF(1, E &a, a)
}
extern "C" void h_swap2(R2) { nary::swap(a, b); }
extern "C" void h_swap3(R3) { nary::swap(a, b, c); }
extern "C" void h_swap4(R4) { nary::swap(a, b, c, d); }
extern "C" void h_swap5(R5) { nary::swap(a, b, c, d, e); }
extern "C" void h_swap6(R6) { nary::swap(a, b, c, d, e, f); }
extern "C" void h_swap7(R7) { nary::swap(a, b, c, d, e, f, g); }
extern "C" void h_swap8(R8) { nary::swap(a, b, c, d, e, f, g, h); }
extern "C" void h_swapr2(R2) { nary::swapr(a, b); }
extern "C" void h_swapr3(R3) { nary::swapr(a, b, c); }
extern "C" void h_swapr4(R4) { nary::swapr(a, b, c, d); }
extern "C" void h_swapr5(R5) { nary::swapr(a, b, c, d, e); }
extern "C" void h_swapr6(R6) { nary::swapr(a, b, c, d, e, f); }
extern "C" void h_swapr7(R7) { nary::swapr(a, b, c, d, e, f, g); }
extern "C" void h_swapr8(R8) { nary::swapr(a, b, c, d, e, f, g, h); }
using T = void *;
extern "C" void h_tswap2(T &a, T &b) { nary::swap(a, b); }
extern "C" void h_tswap5(T &a, T &b, T &c, T &d, T &e) { nary::swap(a, b, c, d, e); }
extern "C" void h_tswapr2(T &a, T &b) { nary::swapr(a, b); }
extern "C" void h_tswapr5(T &a, T &b, T &c, T &d, T &e) { nary::swapr(a, b, c, d, e); }
