/* Allocator the code generator is built with for C20: counts, guards, can refuse, and sees the allocator data. */
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vd_malloc(size_t n, void *d);
void vd_free(void *p, void *d);
#ifdef __cplusplus
}
#endif
