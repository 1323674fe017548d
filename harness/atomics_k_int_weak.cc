#include "atomics_kinds.inc"
KIND(int, weak, 0, true)
