#include <stddef.h>
extern void *vp_cached_malloc(size_t n);
extern void vp_cached_free(void *p);
