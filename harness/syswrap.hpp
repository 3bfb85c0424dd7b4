// Faults and delays around the system calls made by the code under test (linked with --wrap for each of vp_sys_names).
// Only calls made by a thread between Sys construction and destruction are affected.
#ifndef VP_SYSWRAP_HPP
#define VP_SYSWRAP_HPP
#include "common.hpp"
#include <sys/file.h>
#include <sched.h>
#include <atomic>

struct SysState
{
    int on = 0;             // the calls of this thread are counted
    long seen = 0;          // calls seen
    long fail_at = 0;       // 1-based call to fail (0: none)
    int err = EIO;          // with this errno
    int short_write = -1;   // the failing call, when a write, writes only so many bytes instead
    int delay = 0;          // largest pause in microseconds around each call (0: none)
    long stop_at = 0;       // 1-based half-step (before: 2k-1, after: 2k) at which hook is called
    void (*hook)(void *, const char *, int after) = 0; void *arg = 0;
    const char *failed = 0; // name of the call that was failed
    vp::Rng *rng = 0;
};
extern thread_local SysState vp_sys;

struct Sys
{
    explicit Sys(long fail_at = 0, int err = EIO, int short_write = -1)
    { vp_sys = SysState(); vp_sys.fail_at = fail_at; vp_sys.err = err; vp_sys.short_write = short_write; vp_sys.on = 1; }
    ~Sys() { vp_sys.on = 0; }
    long seen() const { return vp_sys.seen; }
    const char *failed() const { return vp_sys.failed; }
};

#ifdef VP_SYSWRAP_IMPL
thread_local SysState vp_sys;
static inline void vp_sys_pause(SysState &s)
{
    if (s.delay && s.rng)
    {
        uint64_t r = s.rng->below(4);
        int e = errno;
        if (r == 0) sched_yield();
        else if (r == 1) { struct timespec t = { 0, (long) s.rng->below((uint64_t) s.delay) * 1000 }; nanosleep(&t, 0); }
        errno = e;
    }
}
// 0: go on, 1: fail (errno is set)
static inline int vp_sys_enter(const char *name)
{
    SysState &s = vp_sys;
    if (!s.on) return 0;
    ++s.seen;
    vp_sys_pause(s);
    if (s.hook) { s.on = 0; s.hook(s.arg, name, 0); s.on = 1; }
    if (s.fail_at && s.seen == s.fail_at) { s.failed = name; errno = s.err; return 1; }
    return 0;
}
static inline void vp_sys_leave(const char *name)
{
    SysState &s = vp_sys;
    if (!s.on) return;
    int e = errno;
    vp_sys_pause(s);
    if (s.hook) { s.on = 0; s.hook(s.arg, name, 1); s.on = 1; }
    errno = e;
}
#define VP_W(ret, name, params, args) \
    extern "C" ret __real_##name params; \
    extern "C" ret __wrap_##name params \
    { if (vp_sys_enter(#name)) return (ret) -1; ret r = __real_##name args; vp_sys_leave(#name); return r; }
VP_W(int, dup, (int a), (a))
VP_W(int, dup2, (int a, int b), (a, b))
VP_W(int, dup3, (int a, int b, int c), (a, b, c))
VP_W(int, mkdir, (const char *p, mode_t m), (p, m))
VP_W(int, mkdirat, (int d, const char *p, mode_t m), (d, p, m))
VP_W(int, flock, (int a, int b), (a, b))
VP_W(int, fstat, (int a, struct stat *b), (a, b))
VP_W(int, stat, (const char *a, struct stat *b), (a, b))
VP_W(int, ftruncate, (int a, off_t b), (a, b))
VP_W(int, unlink, (const char *a), (a))
VP_W(int, setsid, (void), ())
VP_W(void *, mmap, (void *a, size_t n, int p, int f, int fd, off_t o), (a, n, p, f, fd, o))
// a failing close still closes, as on Linux
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd)
{
    int f = vp_sys_enter("close"), e = errno;
    int r = __real_close(fd);
    if (f) { errno = e; return -1; }
    vp_sys_leave("close");
    return r;
}
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int f, ...)
{
    va_list ap; va_start(ap, f); int m = f & (O_CREAT | 020000000) ? va_arg(ap, int) : 0; va_end(ap);
    if (vp_sys_enter("open")) return -1;
    int r = __real_open(p, f, m);
    vp_sys_leave("open");
    return r;
}
extern "C" int __real_openat(int, const char *, int, ...);
extern "C" int __wrap_openat(int d, const char *p, int f, ...)
{
    va_list ap; va_start(ap, f); int m = f & (O_CREAT | 020000000) ? va_arg(ap, int) : 0; va_end(ap);
    if (vp_sys_enter("openat")) return -1;
    int r = __real_openat(d, p, f, m);
    vp_sys_leave("openat");
    return r;
}
extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __wrap_write(int fd, const void *p, size_t n)
{
    if (vp_sys_enter("write"))
    {
        if (vp_sys.short_write < 0 || (size_t) vp_sys.short_write >= n) return -1;
        return __real_write(fd, p, (size_t) vp_sys.short_write);
    }
    ssize_t r = __real_write(fd, p, n);
    vp_sys_leave("write");
    return r;
}
extern "C" ssize_t __real_pwrite(int, const void *, size_t, off_t);
extern "C" ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t o)
{
    if (vp_sys_enter("pwrite"))
    {
        if (vp_sys.short_write < 0 || (size_t) vp_sys.short_write >= n) return -1;
        return __real_pwrite(fd, p, (size_t) vp_sys.short_write, o);
    }
    ssize_t r = __real_pwrite(fd, p, n, o);
    vp_sys_leave("pwrite");
    return r;
}
#endif
#endif
