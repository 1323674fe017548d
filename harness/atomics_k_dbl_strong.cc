#include "atomics_kinds.inc"
KIND(double, strong, 0, true)
