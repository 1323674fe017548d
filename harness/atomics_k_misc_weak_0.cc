#include "atomics_kinds.inc"
typedef int *intp;
KIND(signed char, weak, 0, true)
KIND(short, weak, 0, true)
KIND(unsigned, weak, 0, true)
KIND(long, weak, 0, true)
KIND(float, weak, 0, true)
