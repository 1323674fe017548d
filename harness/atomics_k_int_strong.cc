#include "atomics_kinds.inc"
KIND(int, strong, 0, true)
