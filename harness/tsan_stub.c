/* No-op ThreadSanitizer entry points for the build's own generator program. */
#include <stddef.h>
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { (void)p; } \
    void __tsan_write##n(void *p) { (void)p; } \
    void __tsan_unaligned_read##n(void *p) { (void)p; } \
    void __tsan_unaligned_write##n(void *p) { (void)p; } \
    void __tsan_volatile_read##n(void *p) { (void)p; } \
    void __tsan_volatile_write##n(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; }
