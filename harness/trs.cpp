// the entries of str.cpp for a string with character traits of its own
#include <cstddef>
#include <ios>
#include <string>
struct TR {
  using char_type = char;
  using int_type = int;
  using off_type = std::streamoff;
  using pos_type = std::streampos;
  using state_type = std::mbstate_t;
  static void assign(char &a, const char &b) noexcept;
  static char *assign(char *p, std::size_t n, char c);
  static bool eq(char a, char b) noexcept;
  static bool lt(char a, char b) noexcept;
  static int compare(const char *a, const char *b, std::size_t n);
  static std::size_t length(const char *s);
  static const char *find(const char *s, std::size_t n, const char &c);
  static char *move(char *d, const char *s, std::size_t n);
  static char *copy(char *d, const char *s, std::size_t n);
  static constexpr int not_eof(int c) noexcept { return c == -1 ? 0 : c; }
  static constexpr char to_char_type(int c) noexcept { return char(c); }
  static constexpr int to_int_type(char c) noexcept { return (unsigned char)c; }
  static constexpr bool eq_int_type(int a, int b) noexcept { return a == b; }
  static constexpr int eof() noexcept { return -1; }
};
#define OWN_TRAITS 1
#include "str.cpp"
