#include "atomics_kinds.inc"
KIND(int, strong::pun, 0, true)
KIND(double, strong::pun, 0, true)
KIND(float, strong::pun, 0, true)
