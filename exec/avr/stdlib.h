#include <stddef.h>
void *malloc(size_t); void free(void*); void exit(int); void abort(void);
