#include "atomics_kinds.inc"
typedef int *intp;
KIND(long double, weak, 0, true)
KIND(intp, weak, 0, true)
KIND(Duo, weak, 0, true)
KIND(Trio, weak, 0, true)
