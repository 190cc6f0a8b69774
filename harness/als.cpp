// the same entries for a string with an allocator of its own
#define OWN_ALLOCATOR 1
#include "str.cpp"
