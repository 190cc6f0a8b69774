// every class template of the library, completely instantiated for literal types
#include "all.hpp"
namespace {
struct Lit { int a = 0; constexpr bool operator==(const Lit &) const = default; constexpr bool operator<(const Lit &o) const { return a < o.a; } };
}
#define BOTH(T) template class T<int>; template class T<Lit>;
BOTH(cest::vector)
BOTH(cest::deque)
BOTH(cest::list)
BOTH(cest::forward_list)
BOTH(cest::queue)
BOTH(cest::set)
template class cest::map<int, int>;
template class cest::map<Lit, Lit>;
BOTH(cest::unique_ptr)
BOTH(cest::shared_ptr)
template class cest::basic_string<char>;
template class cest::basic_string<wchar_t>;
template class cest::basic_ios<char>;
template class cest::basic_streambuf<char, std::char_traits<char>>;
template class cest::function<int(int, Lit &)>;
template class cest::function<void(Lit &&)>;
template class cest::complex<double>;
template class cest::complex<float>;
