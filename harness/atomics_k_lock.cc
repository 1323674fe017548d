#include "atomics_kinds.inc"
KIND(int, lock, 0, true)
KIND(int, lock, 1, true)
KIND(double, lock, 0, true)
KIND(double, lock, 1, true)
KIND(signed char, lock, 0, true)
KIND(short, lock, 0, true)
KIND(long, lock, 0, true)
KIND(long, lock, 7, true)
KIND(long double, lock, 0, true)
typedef int *intp;
KIND(intp, lock, 0, true)
KIND(Duo, lock, 0, true)
KIND(Duo, lock, 3, true)
KIND(Trio, lock, 0, true)
