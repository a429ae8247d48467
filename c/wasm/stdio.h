#include <stddef.h>
#define NULL ((void *)0)
#define printf(...) 0
