// texts longer than the memory they take: the same pages, again and again
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <signal.h>
#include <sys/time.h>

// an operation that goes on for ever has to be reported: minutes of CPU for what takes seconds
static inline void too_long(int) { vp::violation("hang", "an operation on a text of gigabytes does not finish"); }
static inline void begin_long()
{
    signal(SIGPROF, too_long);
    struct itimerval it = { { 0, 0 }, { 150, 0 } }; setitimer(ITIMER_PROF, &it, 0);
}

// a head, then one piece of filling mapped as often as needed, then a tail: gigabytes of text in 12 MiB
struct Long
{
    char *p; size_t n; int fd; size_t room;
    Long(const std::string &head, const std::string &fill, size_t size, const std::string &tail): n(size)
    {
        begin_long();
        const size_t PIECE = 1 << 22; room = (size / PIECE + 2) * PIECE;
        fd = memfd_create("text", MFD_CLOEXEC); HCHECK(fd >= 0 && !ftruncate(fd, (off_t) PIECE * 3), "memory file");
        p = (char *) mmap(0, room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); HCHECK(p != MAP_FAILED, "map");
        size_t last = size / PIECE * PIECE;
        for (size_t o = 0; o < room; o += PIECE)
            HCHECK(mmap(p + o, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, o == 0 ? 0 : (off_t) PIECE * (o < last ? 1 : 2)) != MAP_FAILED || o > last, "map");
        for (size_t i = 0; i < PIECE; ++i) p[i] = p[PIECE + i] = p[last + i] = fill[i % fill.size()];
        HCHECK(tail.size() <= size - last, "tail in the last piece");
        memcpy(p, head.data(), head.size()); memcpy(p + size - tail.size(), tail.data(), tail.size()); p[size] = 0;
    }
    // n bytes of a period that divides the pieces, as far as can be seen: the ends and the shared piece
    bool is(size_t k, const std::string &period) const
    {
        const size_t PIECE = 1 << 22; size_t last = k / PIECE * PIECE;
        for (size_t o : { (size_t) 0, PIECE, last / 2 / PIECE * PIECE, last ? last - PIECE : 0, last })
            for (size_t i = o; i < k && i < o + PIECE; ++i) if (p[i] != period[i % period.size()]) return false;
        return true;
    }
    ~Long() { munmap(p, room); close(fd); }
};
// whether that many GiB are free
static inline bool memory(size_t gib)
{
    FILE *f = fopen("/proc/meminfo", "r"); char line[256]; unsigned long long kb = 0;
    while (f && fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
    if (f) fclose(f);
    if (kb >> 20 >= gib) return true;
    vp::ev("left out for lack of memory"); return false;
}
