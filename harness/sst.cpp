#include "cest/cstdio.hpp"
#include "cest/sstream.hpp"
#include <new>
using ST = cest::string;
using IS = cest::istringstream;
using SS = cest::stringstream;
using FS = cest::FILE;
// a buffer of the user's: the characters come in three pieces, then none, or a failure
struct CB : cest::basic_streambuf<char> {
  char *piece[3];
  long len[3];
  int next = 0;
  int fails;
  CB(char *a, long n, char *b, long m, char *c, long k, int f) : piece{a, b, c}, len{n, m, k}, fails(f) {}
  int underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (next == fails) throw 1;
    if (next == 3) return traits_type::eof();
    int i = next++;
    setg(piece[i], piece[i], piece[i] + len[i]);
    return traits_type::to_int_type(*gptr());
  }
  int pbackfail(int) override { if (fails == -2) throw 1; return traits_type::eof(); }
};
using BI = cest::basic_istream<char>;
extern "C" {
void h_cb(CB *p, char *a, long n, char *b, long m, char *c, long k, int f) { new (p) CB(a, n, b, m, c, k, f); }
void h_bi(BI *p, CB *b) { new (p) BI(b); }
const void *h_bget(BI &s, char &c) { return &s.get(c); }
const void *h_bread(BI &s, char *b, long n) { return &s.read(b, n); }
const void *h_bunget(BI &s) { return &s.unget(); }
long h_bgcount(BI &s) { return s.gcount(); }
int h_brdstate(const BI &s) { return s.rdstate(); }
bool h_bgood(const BI &s) { return s.good(); }
bool h_beof(const BI &s) { return s.eof(); }
bool h_bfail(const BI &s) { return s.fail(); }
bool h_bbool(const BI &s) { return static_cast<bool>(s); }
bool h_bnot(const BI &s) { return !s; }
void h_bclear0(BI &s) { s.clear(); }
void h_bclear(BI &s, int b) { s.clear((cest::ios_base::iostate)b); }
void h_bexceptions(BI &s, int b) { s.exceptions((cest::ios_base::iostate)b); }
int h_bexc(const BI &s) { return s.exceptions(); }
const void *h_brdbuf(const BI &s) { return s.rdbuf(); }
int h_u_getc(BI &s) { return s.rdbuf()->sgetc(); }
int h_u_bumpc(BI &s) { return s.rdbuf()->sbumpc(); }
int h_u_nextc(BI &s) { return s.rdbuf()->snextc(); }
int h_u_ungetc(BI &s) { return s.rdbuf()->sungetc(); }
long h_u_getn(BI &s, char *b, long n) { return s.rdbuf()->sgetn(b, n); }
int h_u_sync(BI &s) { return s.rdbuf()->pubsync(); }
unsigned long h_stsize(const ST &s) { return s.size(); }
unsigned long h_stcapacity(const ST &s) { return s.capacity(); }
const char *h_stdata(const ST &s) { return s.data(); }
#define STREAM(X, S) \
  void X##ctor0(S *p) { new (p) S(); } \
  void X##ctor(S *p, const ST &s) { new (p) S(s); } \
  void X##ctorm(S *p, const ST &s, int m) { new (p) S(s, (cest::ios_base::openmode)m); } \
  void X##dtor(S &s) { s.~S(); } \
  const void *X##get(S &s, char &c) { return &s.get(c); } \
  const void *X##read(S &s, char *b, long n) { return &s.read(b, n); } \
  const void *X##unget(S &s) { return &s.unget(); } \
  const void *X##rdbuf(const S &s) { return s.rdbuf(); } \
  const void *X##tie(const S &s) { return s.tie(); } \
  const void *X##base(S &s) { return &static_cast<FS &>(s); } \
  long X##gcount(S &s) { return s.gcount(); } \
  int X##rdstate(const S &s) { return s.rdstate(); } \
  bool X##good(const S &s) { return s.good(); } \
  bool X##eof(const S &s) { return s.eof(); } \
  bool X##fail(const S &s) { return s.fail(); } \
  bool X##bool(const S &s) { return static_cast<bool>(s); } \
  bool X##not(const S &s) { return !s; } \
  void X##clear(S &s, int b) { s.clear((cest::ios_base::iostate)b); } \
  void X##clear0(S &s) { s.clear(); } \
  void X##setstate(S &s, int b) { s.setstate((cest::ios_base::iostate)b); } \
  void X##exceptions(S &s, int b) { s.exceptions((cest::ios_base::iostate)b); } \
  int X##exc(const S &s) { return s.exceptions(); } \
  void X##str(ST *r, const S &s) { new (r) ST(s.str()); } \
  void X##setstr(S &s, const ST &t) { s.str(t); }
STREAM(h_i, IS)
STREAM(h_s, SS)
void h_nsetstate(FS &s, int b) { s.setstate((cest::ios_base::iostate)b); }
void h_nclear(FS &s, int b) { s.clear((cest::ios_base::iostate)b); }
void h_null(FS *p) { new (p) FS(nullptr); }
int h_b_bad() { return cest::ios_base::badbit; }
int h_b_eof() { return cest::ios_base::eofbit; }
int h_b_fail() { return cest::ios_base::failbit; }
int h_m_in() { return cest::ios_base::in; }
int h_m_out() { return cest::ios_base::out; }
int h_m_ate() { return cest::ios_base::ate; }
int h_m_app() { return cest::ios_base::app; }
FS *h_f_open(char *b, unsigned long n) { return cest::fmemopen(b, n, "r"); }
unsigned long h_f_read(char *b, unsigned long n, unsigned long m, FS *f) { return cest::fread(b, n, m, f); }
int h_f_close(FS *f) { return cest::fclose(f); }
}
