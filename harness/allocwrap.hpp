// Allocation faults for code linked with --wrap=malloc,calloc,realloc,strdup: once armed, the
// n-th allocation (1-based) made by the linked C code fails.
#ifndef VP_ALLOCWRAP_HPP
#define VP_ALLOCWRAP_HPP
#include <stddef.h>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
extern long vp_alloc_fail_at;   // 0: off
extern long vp_alloc_seen;
}
#ifdef VP_ALLOCWRAP_IMPL
extern "C" {
long vp_alloc_fail_at, vp_alloc_seen;
static bool vp_fail() { ++vp_alloc_seen; return vp_alloc_fail_at && vp_alloc_seen == vp_alloc_fail_at; }
void *__wrap_malloc(size_t n) { return vp_fail() ? (errno = ENOMEM, (void *) 0) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return vp_fail() ? (errno = ENOMEM, (void *) 0) : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return vp_fail() ? (errno = ENOMEM, (void *) 0) : __real_realloc(p, n); }
}
#endif
struct AllocFault
{
    explicit AllocFault(long at) { vp_alloc_seen = 0; vp_alloc_fail_at = at; }
    ~AllocFault() { off(); }
    void off() { vp_alloc_fail_at = 0; }
};
#endif
