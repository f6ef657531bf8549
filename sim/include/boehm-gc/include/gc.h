/* Shim for the deterministic simulator: the collector interface Minim's
   src/gc/gc.h expects, implemented by sim/simrt.c. */
#ifndef SIM_GC_H
#define SIM_GC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*GC_finalization_proc)(void *obj, void *client_data);
void GC_init(void);
void GC_deinit(void);
void *GC_malloc(size_t n);
void *GC_malloc_atomic(size_t n);
void *GC_malloc_uncollectable(size_t n);
void *GC_realloc(void *p, size_t n);
void GC_free(void *p);
char *GC_strdup(const char *s);
char *GC_strndup(const char *s, size_t n);
void GC_gcollect(void);
void GC_disable(void);
void GC_enable(void);
void GC_add_roots(void *lo, void *hi);
void GC_remove_roots(void *lo, void *hi);
void GC_register_finalizer(void *obj, GC_finalization_proc fn, void *cd,
                           GC_finalization_proc *ofn, void **ocd);
void *GC_base(void *p);
size_t GC_size(const void *p);
int GC_invoke_finalizers(void);
size_t GC_get_heap_size(void);
#define GC_MALLOC(n) GC_malloc(n)
#define GC_MALLOC_ATOMIC(n) GC_malloc_atomic(n)
#define GC_REALLOC(p, n) GC_realloc(p, n)
#define GC_FREE(p) GC_free(p)
#define GC_INIT() GC_init()
#ifdef __cplusplus
}
#endif
#endif
