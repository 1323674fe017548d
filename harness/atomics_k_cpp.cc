#include "atomics_kinds.inc"
KIND(int, cpp, 0, true)
KIND(unsigned char, cpp, 0, true)
KIND(short, cpp, 0, true)
KIND(unsigned, cpp, 0, true)
KIND(long, cpp, 0, true)
KIND(long long, cpp, 0, true)
typedef int *intp;
KIND(intp, cpp, 0, true)
