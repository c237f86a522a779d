// Counts the work the library does: control flow edges executed, bytes moved or scanned, bytes allocated.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
unsigned long work_edges, work_bytes;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { work_edges++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {}
void *__real_memcpy(void *d, const void *s, size_t n); void *__wrap_memcpy(void *d, const void *s, size_t n) { work_bytes += n; return __real_memcpy(d, s, n); }
void *__real_memmove(void *d, const void *s, size_t n); void *__wrap_memmove(void *d, const void *s, size_t n) { work_bytes += n; return __real_memmove(d, s, n); }
void *__real_memset(void *d, int c, size_t n); void *__wrap_memset(void *d, int c, size_t n) { work_bytes += n; return __real_memset(d, c, n); }
size_t __real_strlen(const char *s); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); work_bytes += n; return n; }
char *__real_strdup(const char *s); char *__wrap_strdup(const char *s) { work_bytes += __real_strlen(s); return __real_strdup(s); }
char *__real_strndup(const char *s, size_t n); char *__wrap_strndup(const char *s, size_t n) { work_bytes += n; return __real_strndup(s, n); }
void *__real_realloc(void *p, size_t n); void *__wrap_realloc(void *p, size_t n) { work_bytes += n; return __real_realloc(p, n); }
void *__real_malloc(size_t n); void *__wrap_malloc(size_t n) { work_bytes += n; return __real_malloc(n); }
