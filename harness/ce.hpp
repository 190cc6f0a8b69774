// evaluates the headers as a constant evaluation would: every std header first,
// then the question whether this is a constant evaluation is answered with yes
#include <algorithm>
#include <array>
#include <cctype>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <ios>
#include <iosfwd>
#include <iostream>
#include <istream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <bit>
#include <compare>
#include <concepts>
#include <ranges>
#include <span>
#include <variant>
namespace std { constexpr bool h_ce() noexcept { return true; } }
#define is_constant_evaluated h_ce
#define __builtin_is_constant_evaluated() true
