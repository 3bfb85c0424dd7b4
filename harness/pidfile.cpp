// C27 pid files: competing processes with pauses around every system call, removals, deaths, failing calls.
#define VP_SYSWRAP_IMPL
#include "syswrap.hpp"
#include <coda/daemon.h>
#include <coda/logger.h>
#include <coda/system.h>
#include <atomic>
using namespace vp;
using std::string;

extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));

struct Ev { uint64_t s, e; int p; int what; int rc; };   // what: 0 take, 1 remove
struct Shm
{
    std::atomic<int> ready, go, owners, maxowners; std::atomic<uint64_t> n, taken, refused, kept; Ev ev[20000];
    std::atomic<int> killed[16]; std::atomic<uint64_t> looks;
};
static Shm *shm;
static uint64_t ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec; }
static void note(int p, int what, uint64_t s, uint64_t e, int rc)
{ uint64_t k = shm->n.fetch_add(1); if (k < 20000) { Ev v = { s, e, p, what, rc }; shm->ev[k] = v; } }
static string pid_line(pid_t p) { return fmt("%d\n", (int) p); }
static void quiet() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); close(fd); log_level = LOG_debug; }
static int take(Rng &r, const string &path, int delay, void (*hook)(void *, const char *, int) = 0, void *arg = 0)
{ Sys s; vp_sys.rng = &r; vp_sys.delay = delay; vp_sys.hook = hook; vp_sys.arg = arg; return coda_mkpidf(path.c_str()); }

// nobody may hold the lock of the file once no attempt is running
static void no_lock(const string &path, const char *when)
{
    int fd = open(path.c_str(), O_RDWR); if (fd < 0) return;
    CHECK(flock(fd, LOCK_EX | LOCK_NB) == 0, "lock-left", "the pid file is still locked %s", when);
    close(fd);
    fd = open(path.c_str(), O_RDWR);
    struct flock f; memset(&f, 0, sizeof f); f.l_type = F_WRLCK; f.l_whence = SEEK_SET;
    CHECK(fcntl(fd, F_GETLK, &f) == 0 && f.l_type == F_UNLCK, "lock-left", "the pid file is still locked %s", when);
    close(fd);
}
static int wait_all(std::vector<pid_t> &kids, const std::set<int> &mayd)
{
    int bad = 0;
    for (size_t i = 0; i < kids.size(); ++i)
    {
        int st; double a = now(); pid_t w;
        while ((w = waitpid(kids[i], &st, WNOHANG)) == 0) { if (now() - a > 30) { for (pid_t k : kids) kill(k, SIGKILL); violation("hang", "an attempt to take a pid file does not return"); } usleep(50); }
        if (WIFEXITED(st) && WEXITSTATUS(st)) bad = bad ? bad : WEXITSTATUS(st);
        if (WIFSIGNALED(st) && !mayd.count((int) i)) bad = bad ? bad : 200;
    }
    return bad;
}
static void finish(int bad)
{
    if (bad == 77 || bad == 79) { save_stats(); _exit(bad); }
    CHECK(!bad, "process-failed", "a competing process failed (%d)", bad);
}

// all start at once: one wins
static void race(Rng &r, bool empty)
{
    string path = opt.dir + "/pid"; unlink(path.c_str());
    if (empty) write_file(path, "");
    int procs = 2 + (int) r.below(7); int delay = r.chance(1, 4) ? 0 : 1 + (int) r.below(300);
    new (shm) Shm();
    std::vector<pid_t> kids; std::vector<uint64_t> seeds;
    for (int p = 0; p < procs; ++p) seeds.push_back(r.next());
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = fork(); HCHECK(k >= 0, "fork");
        if (!k)
        {
            quiet(); Rng q(seeds[(size_t) p]);
            int fds = open_fds();
            shm->ready.fetch_add(1); while (!shm->go.load()) ;
            if (q.chance(1, 3)) usleep((useconds_t) q.below((uint64_t) delay * 4 + 1));
            uint64_t s = ns(); int rc = take(q, path, delay); uint64_t e = ns();
            note(p, 0, s, e, rc);
            CHECK(rc == 0 || rc == -1, "return", "coda_mkpidf returned %d", rc);
            if (rc == 0) { shm->taken.fetch_add(1); string c = read_file(path); CHECK(c == pid_line(getpid()), "content", "the owner %d finds %s in its pid file", getpid(), S(c)); }
            CHECK(open_fds() == fds, "fd-leak", "an attempt returning %d leaks a descriptor", rc);
            // the winner lives on until all are done
            shm->ready.fetch_add(1); while (shm->ready.load() < 2 * procs) usleep(20);
            if (rc == 0) { string c = read_file(path); CHECK(c == pid_line(getpid()), "content", "the pid file of the living owner %d now holds %s", getpid(), S(c)); }
            _exit(0);
        }
        kids.push_back(k);
    }
    while (shm->ready.load() < procs) usleep(20);
    shm->go = 1;
    finish(wait_all(kids, std::set<int>()));
    int winners = (int) shm->taken.load(); uint64_t h = 0; int overlaps = 0;
    std::vector<Ev> v(shm->ev, shm->ev + shm->n.load());
    std::sort(v.begin(), v.end(), [](const Ev &a, const Ev &b) { return a.s < b.s; });
    uint64_t last = 0; for (auto &x : v) { h = mix(h, (uint64_t) (x.rc + 2)); if (x.s < last) ++overlaps; last = std::max(last, x.e); h = mix(h, x.s < last); }
    CHECK(winners == 1, winners ? "two-owners" : "no-owner", "%d of %d competing processes own the pid file%s", winners, procs, empty ? " that was empty before" : "");
    no_lock(path, "after a race");
    evaluated(1); distinct(mix(h, (uint64_t) procs)); ev("races"); ev("competing processes", (uint64_t) procs); ev("overlapping attempts", (uint64_t) overlaps);
    if (empty) ev("races over an empty file");
    if (want_sample()) sample("race of %d processes, pauses up to %d us, %d overlapping attempts", procs, delay, overlaps);
    unlink(path.c_str());
}

// owners come and go; some competitors are killed inside an attempt
static void churn(Rng &r, bool deaths)
{
    string path = opt.dir + "/pid"; unlink(path.c_str());
    int procs = 2 + (int) r.below(5), delay = 1 + (int) r.below(200), rounds = 3 + (int) r.below(25);
    new (shm) Shm();
    std::vector<pid_t> kids; std::set<int> mayd; std::vector<uint64_t> seeds;
    for (int p = 0; p < procs; ++p) seeds.push_back(r.next());
    if (deaths) for (int p = 1; p < procs; ++p) if (r.chance(1, 2)) mayd.insert(p);
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = fork(); HCHECK(k >= 0, "fork");
        if (!k)
        {
            quiet(); Rng q(seeds[(size_t) p]); int fds = open_fds();
            struct Die { long left; int p; } die = { mayd.count(p) ? (long) q.below(60) : -1, p };
            shm->ready.fetch_add(1); while (!shm->go.load()) ;
            for (int n = 0; n < rounds; )
            {
                uint64_t s = ns();
                int rc = take(q, path, delay, [](void *a, const char *, int)
                { Die *d = (Die *) a; if (d->left >= 0 && d->left-- == 0) { shm->killed[d->p] = 1; kill(getpid(), SIGKILL); } }, &die);
                uint64_t e = ns(); note(p, 0, s, e, rc);
                if (rc == 0)
                {
                    ++n; shm->taken.fetch_add(1);
                    int o = shm->owners.fetch_add(1) + 1;
                    CHECK(o == 1, "two-owners", "%d processes own the pid file at once", o);
                    for (unsigned k = (unsigned) q.below(4); k--; )
                    { string c = read_file(path); CHECK(c == pid_line(getpid()), "content", "the pid file of the living owner %d holds %s", getpid(), S(c)); if (q.chance(1, 2)) usleep((useconds_t) q.below(200)); }
                    string c = read_file(path); CHECK(c == pid_line(getpid()), "content", "the pid file of the living owner %d holds %s", getpid(), S(c));
                    shm->owners.fetch_sub(1);
                    coda_getopt_t o2; memset(&o2, 0, sizeof o2); o2.pid = path.c_str();
                    s = ns(); rc = coda_daemon_stop(&o2); e = ns(); note(p, 1, s, e, rc);
                    CHECK(rc == 0, "remove", "removing the pid file failed: %s", strerror(errno));
                }
                else { shm->refused.fetch_add(1); if (q.chance(1, 3)) usleep((useconds_t) q.below(100)); if (shm->refused.load() > 200000) break; }
                // the last ones need no competitors
                CHECK(now() > 0, "x", "x");
            }
            CHECK(open_fds() == fds, "fd-leak", "taking and removing the pid file leaks descriptors");
            _exit(0);
        }
        kids.push_back(k);
    }
    while (shm->ready.load() < procs) usleep(20);
    shm->go = 1;
    // one that dies between writing and returning leaves its id: the harness then plays the administrator who removes the file
    std::vector<int> st(kids.size(), 0); size_t left = kids.size(); double a = now(); uint64_t seen = 0; int bad = 0;
    while (left)
    {
        for (size_t i = 0; i < kids.size(); ++i)
        {
            int s; if (st[i] || waitpid(kids[i], &s, WNOHANG) <= 0) continue;
            st[i] = 1; --left;
            if (WIFSIGNALED(s))
            {
                if (!shm->killed[i].load()) bad = 200;
                ev("competitors killed inside an attempt");
                string c = read_file(path);
                if (c == pid_line(kids[i])) { unlink(path.c_str()); ev("ids left by dead processes"); }
                else CHECK(c.empty() || (c.back() == '\n' && atoi(c.c_str()) > 0), "content", "after the death of a competitor the file holds %s", S(c));
            }
            else if (WEXITSTATUS(s)) bad = WEXITSTATUS(s);
            if (bad) { for (size_t j = 0; j < kids.size(); ++j) if (!st[j]) { kill(kids[j], SIGKILL); waitpid(kids[j], 0, 0); } finish(bad); }
        }
        // whoever looks sees nothing, an empty file or the whole id of a competitor
        string c = read_file(path); shm->looks.fetch_add(1);
        if (!c.empty()) { int v = atoi(c.c_str()); bool known = false; for (pid_t k : kids) if (k == v) known = true; if (!(known && c == pid_line(v))) { for (size_t j = 0; j < kids.size(); ++j) if (!st[j]) kill(kids[j], SIGKILL); violation("content", "an observer finds %s in the pid file", S(c)); } }
        uint64_t t = shm->taken.load(); if (t != seen) { seen = t; a = now(); }
        if (now() - a > 20)
        {
            for (size_t j = 0; j < kids.size(); ++j) if (!st[j]) kill(kids[j], SIGKILL);
            violation("nobody", "no process can take the pid file any more, it holds %s, %llu attempts are refused", S(c), (unsigned long long) shm->refused.load());
        }
        usleep(20);
    }
    no_lock(path, "after all have gone");
    string c = read_file(path); CHECK(c.empty(), "content", "after all have gone the pid file holds %s", S(c));
    uint64_t n = std::min<uint64_t>(shm->n.load(), 20000), h = 0; std::vector<Ev> v(shm->ev, shm->ev + n);
    std::sort(v.begin(), v.end(), [](const Ev &x, const Ev &y) { return x.s < y.s; });
    int overlaps = 0; uint64_t last = 0; for (auto &x : v) { h = mix(h, (uint64_t) (x.p * 4 + x.what * 2 + (x.rc == 0))); if (x.s < last) ++overlaps; last = std::max(last, x.e); }
    evaluated(1); distinct(h); ev("churns"); ev("ownerships", shm->taken.load()); ev("refused attempts", shm->refused.load()); ev("overlapping attempts", (uint64_t) overlaps); ev("looks of an observer", shm->looks.load());
    unlink(path.c_str());
}

// one attempt over every state of the file with each system call failing in turn
static void faults(Rng &r)
{
    string path = opt.dir + "/pid";
    static const char *const before[] = { 0, "", "1\n", "4711\n", "not a pid", "\n" };
    int b = (int) r.below(6);
    for (int kind = 0; kind < 3; ++kind) for (long at = 0; at < 12; ++at)
    {
        unlink(path.c_str()); if (before[b]) write_file(path, before[b]);
        int fds = open_fds(), rc; const char *failed; long calls;
        int err = (int[]) { EIO, ENOSPC, EINTR, EWOULDBLOCK }[r.below(4)];
        { Sys s(at, err, kind == 0 ? -1 : (int) r.below(3)); rc = coda_mkpidf(path.c_str()); failed = s.failed(); calls = s.seen(); }
        if (kind && failed && strcmp(failed, "write") && strcmp(failed, "pwrite")) continue;
        string c = read_file(path); struct stat st; bool there = !stat(path.c_str(), &st);
        CHECK(open_fds() == fds, "fd-leak", "an attempt whose %s fails returns %d and leaks a descriptor", failed ? failed : "nothing", rc);
        no_lock(path, fmt("after an attempt whose %s failed", failed ? failed : "nothing").c_str());
        bool owned = before[b] && *before[b];
        if (owned) CHECK(rc == -1 && c == before[b], "overwritten", "over %s (%s failed) the attempt returns %d and leaves %s", S(string(before[b])), failed ? failed : "nothing", rc, S(c));
        else if (rc == 0) CHECK(c == pid_line(getpid()), "content", "after success (%s failed) the file holds %s", failed ? failed : "nothing", S(c));
        else
        {
            CHECK(failed, "refused", "over %s the attempt fails", before[b] ? "an empty file" : "no file");
            // unlocking and closing come after the id is written: those failures may leave it
            if (!strcmp(failed, "write") || !strcmp(failed, "pwrite") || !strcmp(failed, "fstat") || !strcmp(failed, "stat") || !strcmp(failed, "open"))
                CHECK(c.empty(), "remains", "an attempt whose %s failed leaves %s in the file", failed, S(c));
            if (c.empty())
            {
                rc = coda_mkpidf(path.c_str());
                CHECK(rc == 0 && read_file(path) == pid_line(getpid()), "next", "after a failed attempt (%s) the next one returns %d", failed, rc);
            }
        }
        if (rc == -1 && !failed) CHECK(there == (before[b] != 0), "created", "x");
        ev("attempts with a failing call", failed ? 1 : 0); ev("attempts over a given state");
        distinct(mix(mix((uint64_t) b, failed ? hash(failed, strlen(failed)) : 0), (uint64_t) (kind * 16 + err % 16)));
        if (!failed && at > calls) break;
    }
    evaluated(1); unlink(path.c_str());
}
// places where no file can be made
static void places()
{
    int fds = open_fds();
    string d = opt.dir + "/dir"; mkdir(d.c_str(), 0755);
    const string bad[] = { d, opt.dir + "/none/pid", "", opt.dir + "/" + string(300, 'p') };
    for (auto &p : bad) CHECK(coda_mkpidf(p.c_str()) == -1, "place", "a pid file at %s is reported to be taken", S(p));
    CHECK(open_fds() == fds, "fd-leak", "failed attempts leak descriptors");
    string p = opt.dir + "/own"; unlink(p.c_str());
    CHECK(coda_mkpidf(p.c_str()) == 0 && coda_mkpidf(p.c_str()) == -1 && read_file(p) == pid_line(getpid()), "again", "taking a pid file twice");
    CHECK(unlink(p.c_str()) == 0 && coda_mkpidf(p.c_str()) == 0, "again", "taking a removed pid file again");
    // a lock held by somebody else, on an empty file
    unlink(p.c_str()); int fd = open(p.c_str(), O_CREAT | O_RDWR, 0644); flock(fd, LOCK_EX);
    pid_t k = fork(); if (!k) { quiet(); alarm(20); CHECK(coda_mkpidf(p.c_str()) == -1, "locked", "a locked pid file is taken"); _exit(0); }
    int st; waitpid(k, &st, 0); CHECK(!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM), "hang", "an attempt waits for the lock"); finish(WIFEXITED(st) ? WEXITSTATUS(st) : 200);
    CHECK(read_file(p).empty(), "locked", "a locked pid file is written");
    close(fd); unlink(p.c_str());
    evaluated(1);
}

void vp_custom()
{
    if (__sanitizer_set_report_path) __sanitizer_set_report_path((opt.out + ".san").c_str());
    shm = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int save = fcntl(2, F_DUPFD_CLOEXEC, 100); (void) save; quiet();
    places();
    double end = now() + opt.num("budget", 1000);
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i)
    {
        Rng r(opt.seed * 15485863 + i * 389 + opt.shard * 1000003 + (uint64_t) opt.num("seedoff", 0));
        switch (i % 6)
        {
        case 0: case 1: case 2: race(r, r.chance(1, 3)); break;
        case 3: churn(r, false); break;
        case 4: churn(r, true); break;
        default: faults(r);
        }
    }
}
void vp_init() { }
