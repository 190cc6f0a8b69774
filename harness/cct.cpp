#include "cest/cctype.hpp"
extern "C" {
int h_isalnum(int c) { return cest::isalnum(c); }
int h_isupper(int c) { return cest::isupper(c); }
}
