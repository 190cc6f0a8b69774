#include "cest/iostream.hpp"
#include <new>
using B = cest::ios_base;
using SB = cest::basic_stringbuf<char>;
using BI = cest::basic_istream<char>;
using BO = cest::basic_ostream<char>;
#define MASK(X, T) \
  int h_##X##_and(B::T a, B::T b) { return a & b; } \
  int h_##X##_or(B::T a, B::T b) { return a | b; } \
  int h_##X##_xor(B::T a, B::T b) { return a ^ b; } \
  int h_##X##_not(B::T a) { return ~a; } \
  const B::T *h_##X##_andeq(B::T &a, B::T b) { return &(a &= b); } \
  const B::T *h_##X##_oreq(B::T &a, B::T b) { return &(a |= b); } \
  const B::T *h_##X##_xoreq(B::T &a, B::T b) { return &(a ^= b); } \
  const B::T *h_##X##_selfxor(B::T &a) { return &(a ^= a); } \
  const B::T *h_##X##_selfor(B::T &a) { return &(a |= a); } \
  const B::T *h_##X##_selfand(B::T &a) { return &(a &= a); }
#define CONST(X, N) int c_##X##_##N() { return B::N; }
extern "C" {
MASK(flags, fmtflags) MASK(mode, openmode) MASK(state, iostate)
CONST(flags, boolalpha) CONST(flags, dec) CONST(flags, fixed) CONST(flags, hex) CONST(flags, internal) CONST(flags, left) CONST(flags, oct) CONST(flags, right)
CONST(flags, scientific) CONST(flags, showbase) CONST(flags, showpoint) CONST(flags, showpos) CONST(flags, skipws) CONST(flags, unitbuf) CONST(flags, uppercase)
CONST(flags, adjustfield) CONST(flags, basefield) CONST(flags, floatfield)
CONST(mode, app) CONST(mode, ate) CONST(mode, binary) CONST(mode, in) CONST(mode, out) CONST(mode, trunc)
CONST(state, badbit) CONST(state, eofbit) CONST(state, failbit) CONST(state, goodbit)
void h_in(BI *p, SB *b) { new (p) BI(b); }
void h_out(BO *p, SB *b) { new (p) BO(b); }
int h_inflags(const BI &s) { return s.flags(); }
int h_outflags(const BO &s) { return s.flags(); }
const void *h_inbase(BI &s) { return &static_cast<B &>(s); }
const void *h_indec(BI &s) { return &cest::dec(s); }
const void *h_inhex(BI &s) { return &cest::hex(s); }
const void *h_inoct(BI &s) { return &cest::oct(s); }
}
