#include "atomics_kinds.inc"
typedef int *intp;
KIND(long, strong::pun, 0, true)
KIND(long long, strong::pun, 0, true)
KIND(intp, strong::pun, 0, true)
KIND(Duo, strong::pun, 0, true)
