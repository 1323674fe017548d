#include "atomics_kinds.inc"
typedef int *intp;
KIND(signed char, weak::pun, 0, true)
KIND(unsigned char, weak::pun, 0, true)
KIND(short, weak::pun, 0, true)
KIND(unsigned, weak::pun, 0, true)
