#include "atomics_kinds.inc"
typedef int *intp;
KIND(long, weak::pun, 0, true)
KIND(long long, weak::pun, 0, true)
KIND(intp, weak::pun, 0, true)
KIND(Duo, weak::pun, 0, true)
