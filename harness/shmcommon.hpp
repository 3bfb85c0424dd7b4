// Shared parts of the shared-memory harnesses: keys of their own that are always removed, delays, faults and signals around
// the System V calls, a watchdog for operations that block.
#ifndef VP_SHMCOMMON_HPP
#define VP_SHMCOMMON_HPP
#include "syswrap.hpp"
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/sem.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <exception>

using namespace vp;
using std::string;
extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));

static inline uint64_t ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec; }

// ---- ftok: keys made from the identity of the file, never meeting those of other programs -------------------------------
static uint32_t vp_key_salt = 0;
extern "C" key_t __wrap_ftok(const char *path, int proj)
{
    if (vp_sys_enter("ftok")) return -1;
    struct stat st;
    if (fstatat(AT_FDCWD, path, &st, 0) != 0) return -1;
    uint64_t h = mix(mix(mix(vp_key_salt, (uint64_t) st.st_dev), (uint64_t) st.st_ino), (uint64_t) (proj & 0xff));
    vp_sys_leave("ftok");
    key_t k = (key_t) (h & 0x7fffffff);
    return k ? k : 1;
}
static inline key_t file_key(const char *path, int proj = 1) { bool on = vp_sys.on; vp_sys.on = 0; key_t k = __wrap_ftok(path, proj); vp_sys.on = on; return k; }

extern "C"
{
int __real_semget(key_t, int, int); int __real_semctl(int, int, int, ...); int __real_shmget(key_t, size_t, int);
int __real_semop(int, struct sembuf *, size_t); int __real_semtimedop(int, struct sembuf *, size_t, const struct timespec *);
void *__real_shmat(int, const void *, int); int __real_shmdt(const void *);

int __wrap_semget(key_t k, int n, int f) { if (vp_sys_enter("semget")) return -1; int r = __real_semget(k, n, f); vp_sys_leave("semget"); return r; }
int __wrap_shmget(key_t k, size_t n, int f) { if (vp_sys_enter("shmget")) return -1; int r = __real_shmget(k, n, f); vp_sys_leave("shmget"); return r; }
void *__wrap_shmat(int i, const void *p, int f) { if (vp_sys_enter("shmat")) return (void *) -1; void *r = __real_shmat(i, p, f); vp_sys_leave("shmat"); return r; }
int __wrap_shmdt(const void *p) { int e = errno, f = vp_sys_enter("shmdt"); int r = __real_shmdt(p); if (f) { errno = e; return -1; } vp_sys_leave("shmdt"); return r; }
int __wrap_semctl(int i, int n, int c, ...)
{
    va_list ap; va_start(ap, c); long a = va_arg(ap, long); va_end(ap);
    if (vp_sys_enter("semctl")) return -1;
    int r = __real_semctl(i, n, c, a); vp_sys_leave("semctl"); return r;
}
}
// what this process holds: net of its undoable operations, per semaphore. An operation that gives it all back is a release; those never
// block, so the kernel never refuses them, and they are never failed here.
static thread_local int vp_held[8] = { 0 };
static inline bool vp_release(struct sembuf *s, size_t n)
{
    int h[8]; memcpy(h, vp_held, sizeof h); bool before = false, after = false;
    for (int i = 0; i < 8; ++i) before |= h[i] != 0;
    for (size_t i = 0; i < n; ++i) if (s[i].sem_num < 8 && (s[i].sem_flg & SEM_UNDO)) h[s[i].sem_num] += s[i].sem_op;
    for (int i = 0; i < 8; ++i) after |= h[i] != 0;
    return before && !after;
}
static inline void vp_held_add(struct sembuf *s, size_t n)
{ for (size_t i = 0; i < n; ++i) if (s[i].sem_num < 8 && (s[i].sem_flg & SEM_UNDO)) vp_held[s[i].sem_num] += s[i].sem_op; }
static inline int vp_sem_enter(const char *name, struct sembuf *s, size_t n)
{
    long keep = vp_sys.fail_at;
    // an operation that holds something or publishes only (no waiting, no taking) cannot be refused either
    bool waits = false; for (size_t i = 0; i < n; ++i) waits |= s[i].sem_op <= 0;
    bool fresh = true; for (int i = 0; i < 8; ++i) fresh &= vp_held[i] == 0;
    if (vp_release(s, n) || !fresh || !waits) vp_sys.fail_at = 0;
    int r = vp_sys_enter(name);
    vp_sys.fail_at = keep;
    return r;
}
extern "C" int __wrap_semop(int i, struct sembuf *s, size_t n)
{ if (vp_sem_enter("semop", s, n)) return -1; int r = __real_semop(i, s, n); if (r == 0) vp_held_add(s, n); vp_sys_leave("semop"); return r; }
extern "C" int __wrap_semtimedop(int i, struct sembuf *s, size_t n, const struct timespec *t)
{ if (vp_sem_enter("semtimedop", s, n)) return -1; int r = __real_semtimedop(i, s, n, t); if (r == 0) vp_held_add(s, n); vp_sys_leave("semtimedop"); return r; }

// ---- keys ---------------------------------------------------------------------------------------------------------
// A keeper process outlives this one and removes every key it was told of.
static int vp_keeper = -1;
static inline void remove_key(key_t k)
{
    int s = __real_semget(k, 0, 0); if (s >= 0) __real_semctl(s, 0, IPC_RMID, 0L);
    int m = __real_shmget(k, 0, 0); if (m >= 0) shmctl(m, IPC_RMID, 0);
}
static inline void shm_start()
{
    vp_key_salt = (uint32_t) hash(opt.dir) ^ (uint32_t) getpid() * 2654435761u ^ (uint32_t) ns();
    int p[2]; HCHECK(pipe2(p, O_CLOEXEC) == 0, "pipe");
    pid_t k = fork(); HCHECK(k >= 0, "fork");
    if (!k)
    {
        setsid(); signal(SIGTERM, SIG_IGN); signal(SIGHUP, SIG_IGN); close(p[1]);
        for (int fd = 0; fd < 3; ++fd) close(fd);
        std::set<key_t> keys; key_t q;
        while (read(p[0], &q, sizeof q) == sizeof q) { if (q < 0) keys.erase(-q); else keys.insert(q); }
        for (key_t x : keys) remove_key(x);
        _exit(0);
    }
    close(p[0]); vp_keeper = p[1];
}
struct Key
{
    string path; key_t key;
    explicit Key(const char *name = "key")
    {
        static int serial = 0;
        for (int n = 0; ; ++n)
        {
            path = fmt("%s/%s%d-%d", opt.dir.c_str(), name, (int) getpid(), serial++);
            write_file(path, "");
            key = file_key(path.c_str());
            if (__real_semget(key, 0, 0) < 0 && __real_shmget(key, 0, 0) < 0) break;
            ++vp_key_salt; HCHECK(n < 100, "no free key");
        }
        HCHECK(write(vp_keeper, &key, sizeof key) == sizeof key, "keeper");
    }
    ~Key() { drop(); unlink(path.c_str()); key_t q = -key; HCHECK(write(vp_keeper, &q, sizeof q) == sizeof q, "keeper"); }
    void drop() { for (int i = 1; i < 4; ++i) remove_key(file_key(path.c_str(), i)); }
    const char *c() const { return path.c_str(); }
    int shm() const { return __real_shmget(key, 0, 0); }
    int sem() const { return __real_semget(key, 0, 0); }
    // memory mappings of the segment in all processes
    long attached() const
    {
        int m = shm(); if (m < 0) return 0;
        struct shmid_ds d; HCHECK(shmctl(m, IPC_STAT, &d) == 0, "IPC_STAT"); return (long) d.shm_nattch;
    }
private:
    Key(const Key &); void operator=(const Key &);
};

// ---- watchdog: an operation that does not return in time is a violation ---------------------------------------------------
static const char *vp_dog_what = 0; static const char *vp_dog_key = 0; static uint64_t vp_dog_start;
static void vp_dog_bark(int) { violation(vp_dog_key, "%s: still blocked after %.1f s", vp_dog_what, (double) (ns() - vp_dog_start) / 1e9); }
struct Dog
{
    const char *w, *k; uint64_t s;
    explicit Dog(const char *what, const char *key = "blocked", int seconds = 15)
    {
        w = vp_dog_what; k = vp_dog_key; s = vp_dog_start;
        vp_dog_what = what; vp_dog_key = key; vp_dog_start = ns();
        struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = vp_dog_bark; sigaction(SIGALRM, &a, 0);
        alarm((unsigned) seconds);
    }
    ~Dog() { alarm(0); vp_dog_what = w; vp_dog_key = k; vp_dog_start = s; if (w) alarm(15); }
};

// ---- child processes ------------------------------------------------------------------------------------------------
static inline pid_t spawn()
{
    fflush(0);
    pid_t parent = getpid(), p = fork(); HCHECK(p >= 0, "fork");
    if (!p) { memset(vp_held, 0, sizeof vp_held); alarm(0); prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != parent) _exit(0); }
    return p;
}
// waits for all; the exit status of the first that failed
static inline int join(std::vector<pid_t> &kids, double seconds, const std::set<size_t> &maydie, const char *what)
{
    int bad = 0; double a = now();
    for (size_t i = 0; i < kids.size(); ++i)
    {
        int st; pid_t w;
        while ((w = waitpid(kids[i], &st, WNOHANG)) == 0)
        {
            if (now() - a > seconds) { for (size_t j = i; j < kids.size(); ++j) { kill(kids[j], SIGKILL); } violation("blocked", "%s: a process is still blocked after %.0f s", what, seconds); }
            usleep(100);
        }
        HCHECK(w == kids[i], "waitpid");
        if (WIFEXITED(st) && WEXITSTATUS(st)) bad = bad ? bad : WEXITSTATUS(st);
        if (WIFSIGNALED(st) && !maydie.count(i)) bad = bad ? bad : 1000 + WTERMSIG(st);
    }
    kids.clear();
    return bad;
}
static inline void settle(int bad, const char *what)
{
    if (bad == 77 || bad == 79) { save_stats(); _exit(bad); }
    CHECK(!bad, "process-failed", "%s: a process %s %d", what, bad >= 1000 ? "died of signal" : "exited with", bad % 1000);
}
template <class T> static inline T *shared(size_t n = 1)
{
    void *p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    HCHECK(p != MAP_FAILED, "mmap"); return (T *) p;
}
#endif
