// Entry points of the thread instrumentation and of the memory and string
// functions the library calls (renamed at link time); each reports its accesses
// to point(address, size, is-write), which the including file defines.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <algorithm>
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { point(nullptr, 0, false); }
void __tsan_func_exit() { point(nullptr, 0, false); }
#define RW(n) \
    void __tsan_read##n(void *p) { point(p, n, false); } \
    void __tsan_write##n(void *p) { point(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { point(p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { point(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { point(p, n, false); } \
    void __tsan_volatile_write##n(void *p) { point(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *p) { point(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { point(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { point(p, n, false); }
void __tsan_write_range(void *p, size_t n) { point(p, n, true); }
void __tsan_vptr_update(void **p, void *) { point(p, 8, true); }
void __tsan_vptr_read(void **p) { point(p, 8, false); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { point((const void *)p, sizeof(T), false); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { point((const void *)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { point((const void *)p, sizeof(T), true); T o = *p; if (o == c) *p = v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { point((const void *)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int b) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, a, b); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(nullptr, 0, false); }
void __tsan_atomic_signal_fence(int) {}

// memory and string functions called by the library
void *mcx_memcpy(void *d, const void *s, size_t n) { point(s, n, false); point(d, n, true); return memcpy(d, s, n); }
void *mcx_memmove(void *d, const void *s, size_t n) { point(s, n, false); point(d, n, true); return memmove(d, s, n); }
void *mcx_memset(void *d, int c, size_t n) { point(d, n, true); return memset(d, c, n); }
int mcx_memcmp(const void *a, const void *b, size_t n) { point(a, n, false); point(b, n, false); return memcmp(a, b, n); }
void *mcx_memchr(const void *a, int c, size_t n) { point(a, n, false); return (void *)memchr(a, c, n); }
size_t mcx_strlen(const char *s) { point(s, strlen(s) + 1, false); return strlen(s); }
size_t mcx_strnlen(const char *s, size_t n) { point(s, strnlen(s, n), false); return strnlen(s, n); }
char *mcx_strcpy(char *d, const char *s) { point(s, strlen(s) + 1, false); point(d, strlen(s) + 1, true); return strcpy(d, s); }
char *mcx_stpcpy(char *d, const char *s) { point(s, strlen(s) + 1, false); point(d, strlen(s) + 1, true); return stpcpy(d, s); }
char *mcx_strncpy(char *d, const char *s, size_t n) { point(s, strnlen(s, n), false); point(d, n, true); return strncpy(d, s, n); }
char *mcx_strcat(char *d, const char *s) { point(s, strlen(s) + 1, false); point(d, strlen(s) + strlen(d) + 1, true); return strcat(d, s); }
int mcx_strcmp(const char *a, const char *b) { size_t n = 0; while (a[n] && a[n] == b[n]) n++; point(a, n + 1, false); point(b, n + 1, false); return strcmp(a, b); }
int mcx_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] && a[k] == b[k]) k++; k += k < n; point(a, k, false); point(b, k, false); return strncmp(a, b, n); }
char *mcx_strchr(const char *a, int c) { const char *r = strchr(a, c); point(a, r ? r - a + 1 : strlen(a) + 1, false); return (char *)r; }
char *mcx_strrchr(const char *a, int c) { point(a, strlen(a) + 1, false); return (char *)strrchr(a, c); }
char *mcx_strstr(const char *a, const char *b) { const char *r = strstr(a, b); size_t n = strlen(b); point(b, n + 1, false); point(a, r ? r - a + n : strlen(a) + 1, false); return (char *)r; }
char *mcx_strtok(char *s, const char *d) { static char strtok_state; point(&strtok_state, 1, true); return strtok(s, d); }
int mcx_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    point(f, strlen(f) + 1, false);
    int r = vsnprintf(d, n, f, ap);
    if (r >= 0 && n) point(d, std::min((size_t)r + 1, n), true);
    return r;
}
int mcx_vsprintf(char *d, const char *f, va_list ap) { point(f, strlen(f) + 1, false); int r = vsprintf(d, f, ap); if (r >= 0) point(d, r + 1, true); return r; }
int mcx_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcx_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int mcx_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); point(d, r + 1, true); return r; }
}

