/* Work counter of the counting build: one unit per executed basic block of
   instrumented Rust code and one per 32 bytes copied, moved or compared, per
   thread. Linked with --wrap for the memory functions. */
#include <stddef.h>
#include <stdint.h>
static __thread uint64_t n;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; n++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
uint64_t gv_blocks(void) { return n; }
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real_bcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *a, const void *b, size_t l) { n += l >> 5; return __real_memcpy(a, b, l); }
void *__wrap_memmove(void *a, const void *b, size_t l) { n += l >> 5; return __real_memmove(a, b, l); }
void *__wrap_memset(void *a, int c, size_t l) { n += l >> 5; return __real_memset(a, c, l); }
int __wrap_memcmp(const void *a, const void *b, size_t l) { n += l >> 5; return __real_memcmp(a, b, l); }
int __wrap_bcmp(const void *a, const void *b, size_t l) { n += l >> 5; return __real_bcmp(a, b, l); }
