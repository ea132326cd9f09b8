/* Included (with -include) in every C file of the sanitizer build: allocations of the library's own native code are counted and can be made to
   fail on demand.  The counters live in libvf.so (vf.c), loaded before the library. */
#ifndef VF_FAULT_H
#define VF_FAULT_H
#include <stddef.h>      /* nothing that would freeze the feature macros of libc */
void *vf_malloc(size_t n);
void *vf_calloc(size_t k, size_t n);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
#define malloc(n) vf_malloc(n)
#define calloc(k, n) vf_calloc(k, n)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#endif
