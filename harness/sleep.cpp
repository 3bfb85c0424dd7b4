// C37 millisecond sleeps: what is asked of the kernel for every number, and real sleeps with and without signals.
#include "common.hpp"
#include <coda/gmtime.h>
#include <pthread.h>
#include <thread>
#include <atomic>
using namespace vp;
using std::string;

static bool stand_in = false; static int asked = 0; static uint64_t asked_ns = 0; static bool asked_odd = false; static int answer = 0;
static void note(const struct timespec *t) { ++asked; asked_odd |= t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0; asked_ns += (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec; }
extern "C"
{
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) { if (!stand_in) return __real_usleep(us); struct timespec t = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 }; note(&t); if (answer) { errno = answer; return -1; } return 0; }
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) { if (!stand_in) return __real_nanosleep(t, rem); note(t); if (asked_odd) { errno = EINVAL; return -1; } if (answer) { errno = answer; if (rem) *rem = *t; return -1; } return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) { if (!stand_in || f) return __real_clock_nanosleep(c, f, t, rem); note(t); if (asked_odd) return EINVAL; if (answer) { if (rem) *rem = *t; return answer; } return 0; }
}
static uint64_t ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec; }

// a sleep that the kernel is only asked for
static void ask(int ms)
{
    // slept by a call that is not stood in for: only short times are tried, and those rarely
    static int recorded = -1; static unsigned skip = 0;
    if (recorded < 0) { stand_in = true; asked = 0; answer = 0; coda_msleep(2); stand_in = false; recorded = asked > 0; }
    if (!recorded) { if (++skip % 4096) return; ms &= 3; }
    stand_in = true; asked = 0; asked_ns = 0; asked_odd = false; answer = 0; uint64_t a = ns(); int r = coda_msleep(ms); stand_in = false; uint64_t took = ns() - a;
    CHECK(!asked_odd, "invalid", "sleeping %d ms asks for an invalid time", ms);
    CHECK(r == 0, "result", "sleeping %d ms returns %d", ms, r);
    // by other means than asking, it has really slept
    CHECK(asked_ns + took >= (uint64_t) ms * 1000000ull && asked_ns <= (uint64_t) ms * 1000000ull + 1000000ull, "duration", "sleeping %d ms asks for %llu ns", ms, (unsigned long long) asked_ns);
    ev("numbers of milliseconds asked for");
}
static std::atomic<uint64_t> got_signal;
static void handler(int) { got_signal.fetch_add(1); }
static void real(Rng &r)
{
    bool sig = r.chance(1, 2);
    if (!sig)
    {
        int ms = (int) (r.chance(1, 3) ? r.below(4) : r.below(60)); uint64_t a = ns(); int rc = coda_msleep(ms); uint64_t took = ns() - a;
        CHECK(rc == 0, "result", "sleeping %d ms returns %d: %s", ms, rc, strerror(errno));
        CHECK(took >= (uint64_t) ms * 1000000ull, "short", "sleeping %d ms takes %llu ns", ms, (unsigned long long) took);
        CHECK(took < (uint64_t) ms * 1000000ull + 5000000000ull, "long", "sleeping %d ms takes %llu ns", ms, (unsigned long long) took);
        ev("sleeps"); distinct(mix((uint64_t) ms, took)); if (want_sample()) sample("%d ms took %llu us", ms, (unsigned long long) took / 1000);
    }
    else
    {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = r.chance(1, 2) ? SA_RESTART : 0; sigaction(SIGUSR1, &sa, 0);
        pthread_t me = pthread_self(); unsigned after = 500 + (unsigned) r.below(15000); int ms = r.chance(1, 2) ? 8000 + (int) r.below(5000) : r.chance(1, 4) ? 0x7fffffff - (int) r.below(2000) : r.chance(1, 3) ? 4294967 * (1 + (int) r.below(400)) + (int) r.below(1000) : 8000 + (int) r.below(0x7fffffff - 8000); std::atomic<int> done(0); got_signal = 0;
        std::thread t([&] { usleep(after); while (!done.load()) { pthread_kill(me, SIGUSR1); usleep(2000); } });
        uint64_t a = ns(); errno = 0; int rc = coda_msleep(ms), e = errno; uint64_t took = ns() - a; done = 1; t.join();
        CHECK(rc == -1 && e == EINTR && took < (uint64_t) ms * 1000000ull, "interrupted", "a sleep of %d ms, interrupted after %u us, returns %d (%s) after %llu us", ms, after, rc, strerror(e), (unsigned long long) took / 1000);
        ev("sleeps interrupted by a signal"); distinct(mix((uint64_t) ms, after)); if (want_sample()) sample("%d ms interrupted after %llu us", ms, (unsigned long long) took / 1000);
    }
    evaluated(1);
}
void vp_init() { }
void vp_case(In &in) { int ms = (int) (in.chance(1, 2) ? in.u32() & 0x7fffffff : in.chance(1, 2) ? (in.u32() % 2147484u) * 1000 + in.below(3) - (in.chance(1, 2) ? 1 : 0) : in.below(100000)); if (ms < 0) ms = 0x7fffffff; ask(ms); sig((uint64_t) ms); mark(); }
uint64_t vp_exh_count(bool t) { return t ? 20000000 : 1000000; }
void vp_exh(uint64_t i) { ask((int) i); ask((int) (0x7fffffff - i)); sig(i); mark(); }
void vp_custom() { double end = now() + opt.num("budget", 1000); for (uint64_t i = 0; i < opt.cases && now() < end; ++i) { Rng r(mix(mix(opt.seed, opt.shard), i)); real(r); } }
