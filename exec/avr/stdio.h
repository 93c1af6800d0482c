#include <stddef.h>
int printf(const char*,...);
