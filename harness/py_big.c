/* C20 with room for long containers */
#define MAXN 72
#define POOL 160
#include "py.c"
