#include "cest/algorithm.hpp"
#include "cest/array.hpp"
#include "cest/basic_ios.hpp"
#include "cest/cctype.hpp"
#include "cest/cmath.hpp"
#include "cest/complex.hpp"
#include "cest/cstdio.hpp"
#include "cest/cstdlib.hpp"
#include "cest/deque.hpp"
#include "cest/forward_list.hpp"
#include "cest/fstream.hpp"
#include "cest/functional.hpp"
#include "cest/ios.hpp"
#include "cest/ios_base.hpp"
#include "cest/iostream.hpp"
#include "cest/istream.hpp"
#include "cest/iterator.hpp"
#include "cest/limits.hpp"
#include "cest/list.hpp"
#include "cest/map.hpp"
#include "cest/memory.hpp"
#include "cest/numeric.hpp"
#include "cest/ostream.hpp"
#include "cest/pair.hpp"
#include "cest/queue.hpp"
#include "cest/runtime_ostream.hpp"
#include "cest/set.hpp"
#include "cest/shared_ptr.hpp"
#include "cest/sstream.hpp"
#include "cest/streambuf.hpp"
#include "cest/string.hpp"
#include "cest/swap.hpp"
#include "cest/utility.hpp"
#include "cest/vector.hpp"
