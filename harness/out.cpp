#include "cest/iostream.hpp"
#include "cest/cstdio.hpp"
#include "cest/memory.hpp"
#include "cest/shared_ptr.hpp"
#include <new>
using OS = cest::ostream;
using ST = cest::string;
struct Q { int x; };
extern "C" {
OS &ext_mos(OS &);
cest::basic_ios<char> &ext_mios(cest::basic_ios<char> &);
cest::ios_base &ext_mbase(cest::ios_base &);
void ext_sync();
}
// a buffer of the user's: asking it to synchronise works, fails or throws
struct FB : cest::basic_streambuf<char> {
  int r;
  FB(int r) : r(r) {}
  int sync() override { ext_sync(); if (r == 2) throw 1; return r == 1 ? -1 : 0; }
};
extern "C" {
const void *h_mos(OS &os) { return &(os << ext_mos); }
const void *h_mios(OS &os) { return &(os << ext_mios); }
const void *h_mbase(OS &os) { return &(os << ext_mbase); }
const void *h_asios(OS &os) { return static_cast<cest::basic_ios<char> *>(&os); }
const void *h_asbase(OS &os) { return static_cast<cest::ios_base *>(&os); }
void h_mkfb(FB *p, int r) { new (p) FB(r); }
void h_mkos(OS *p, FB *b) { new (p) OS(b); }
const void *h_rdbuf(const OS &os) { return os.rdbuf(); }
int h_bits(const OS &os) { return os.rdstate(); }
void h_clear(OS &os, int b) { os.clear((cest::ios_base::iostate)b); }
void h_exceptions(OS &os, int b) { os.exceptions((cest::ios_base::iostate)b); }
int h_b_bad() { return cest::ios_base::badbit; }
int h_b_eof() { return cest::ios_base::eofbit; }
int h_b_fail() { return cest::ios_base::failbit; }
unsigned long h_stsize(const ST &s) { return s.size(); }
unsigned long h_stcapacity(const ST &s) { return s.capacity(); }
const char *h_stdata(const ST &s) { return s.data(); }
#define OUT(N, T) const void *h_##N(OS &os, T x) { return &(os << x); }
OUT(int, int)
OUT(uint, unsigned)
OUT(long, long)
OUT(short, short)
OUT(char, char)
OUT(cstr, const char *)
OUT(mstr, char *)
OUT(ptr, const void *)
OUT(qptr, Q *)
OUT(string, const ST &)
OUT(uptr, const cest::unique_ptr<Q> &)
OUT(sptr, const cest::shared_ptr<Q> &)
const void *h_uget(const cest::unique_ptr<Q> &p) { return p.get(); }
const void *h_sget(const cest::shared_ptr<Q> &p) { return p.get(); }
void h_mkuptr(cest::unique_ptr<Q> *r, Q *p) { new (r) cest::unique_ptr<Q>(p); }
void h_mksptr(cest::shared_ptr<Q> *r, Q *p) { new (r) cest::shared_ptr<Q>(p); }
const void *h_endl(OS &os) { return &(os << cest::endl<char, std::char_traits<char>>); }
const void *h_dec(OS &os) { return &(os << cest::dec); }
const void *h_hex(OS &os) { return &(os << cest::hex); }
const void *h_oct(OS &os) { return &(os << cest::oct); }
const void *h_flush(OS &os) { return &os.flush(); }
const void *h_chain(OS &os, int a, char b, const char *c) { return &(os << a << b << c); }
int h_printf0(const char *f) { return cest::printf(f); }
int h_printf1(const char *f, int a) { return cest::printf(f, a); }
int h_printf3(const char *f, long a, double b, const char *c) { return cest::printf(f, a, b, c); }
int h_fprintf0(OS &os, const char *f) { return cest::fprintf(&os, f); }
int h_fprintf1(OS &os, const char *f, int a) { return cest::fprintf(&os, f, a); }
int h_fprintf3(OS &os, const char *f, long a, double b, const char *c) { return cest::fprintf(&os, f, a, b, c); }
const void *h_out() { return cest::stdout; }
const void *h_err() { return cest::stderr; }
const void *h_in() { return cest::stdin; }
const void *h_cout() { return &cest::cout; }
const void *h_cerr() { return &cest::cerr; }
const void *h_clog() { return &cest::clog; }
const void *h_cin() { return &cest::cin; }
}
