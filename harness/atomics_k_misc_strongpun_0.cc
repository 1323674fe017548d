#include "atomics_kinds.inc"
typedef int *intp;
KIND(signed char, strong::pun, 0, true)
KIND(unsigned char, strong::pun, 0, true)
KIND(short, strong::pun, 0, true)
KIND(unsigned, strong::pun, 0, true)
