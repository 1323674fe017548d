#include "atomics_kinds.inc"
KIND(int, weak::pun, 0, true)
KIND(double, weak::pun, 0, true)
KIND(float, weak::pun, 0, true)
