/* Allocator the code generator and the regex compiler are built with for C16: counts, guards and can refuse. */
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc(size_t n);
void vf_free(void *p);
#ifdef __cplusplus
}
#endif
