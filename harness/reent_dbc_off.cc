#define dbc dbc_off   // a library of its own per configuration: the action is chosen at compile time
#define RISTRA_DBC_THROW
#define MODE 0
#define NAME(n) o_##n
#include "reent_dbc.inc"
