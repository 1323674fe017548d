#include "atomics_kinds.inc"
KIND(double, weak, 0, true)
