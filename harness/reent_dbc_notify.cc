#define dbc dbc_notify   // a library of its own per configuration: the action is chosen at compile time
#define RISTRA_REQUIRE_ON
#define RISTRA_DBC_NOTIFY
#define MODE 1
#define NAME(n) n_##n
#include "reent_dbc.inc"
