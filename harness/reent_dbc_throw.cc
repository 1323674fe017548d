#define dbc dbc_throw   // a library of its own per configuration: the action is chosen at compile time
#define RISTRA_REQUIRE_ON
#define RISTRA_DBC_THROW
#define MODE 0
#define NAME(n) t_##n
#include "reent_dbc.inc"
