#define dbc dbc_none   // a library of its own per configuration: the action is chosen at compile time
#define RISTRA_REQUIRE_ON
#define MODE 2
#define NAME(n) q_##n
#include "reent_dbc.inc"
