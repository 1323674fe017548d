#include "atomics_kinds.inc"
typedef int *intp;
KIND(long double, strong, 0, true)
KIND(intp, strong, 0, true)
KIND(Duo, strong, 0, true)
KIND(Trio, strong, 0, true)
