#include "atomics_kinds.inc"
typedef int *intp;
KIND(signed char, strong, 0, true)
KIND(short, strong, 0, true)
KIND(unsigned, strong, 0, true)
KIND(long, strong, 0, true)
KIND(float, strong, 0, true)
