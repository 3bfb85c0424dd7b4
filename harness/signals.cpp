// C26 signals: every round runs in a process of its own whose flags, mask, status and interrupted calls are compared with a model.
#include "common.hpp"
#include <coda/daemon.h>
#include <coda/logger.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <thread>
#include <atomic>
using namespace vp;
using std::string;

extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));

// ---- re-entry of functions that must not be re-entered from a handler -----------------------
static volatile sig_atomic_t inside_localtime, raise_inside, reentered;
extern "C" struct tm *__real_localtime_r(const time_t *, struct tm *);
extern "C" struct tm *__wrap_localtime_r(const time_t *t, struct tm *r)
{
    if (inside_localtime) { reentered = 1; memset(r, 0, sizeof *r); r->tm_mday = 1; return r; }    // the real one would wait for its own lock for ever
    inside_localtime = 1;
    if (raise_inside) { int s = raise_inside; raise_inside = 0; raise(s); }
    struct tm *p = __real_localtime_r(t, r);
    inside_localtime = 0;
    return p;
}

struct Sg { int no; const char *name; int flag; };       // flag: 0 none, 1 reconfigure, 2 terminate, 3 rotate, 4 change binary
static const Sg sg[] = {
    { SIGHUP, "HUP", 1 }, { SIGINT, "INT", 2 }, { SIGTERM, "TERM", 2 }, { SIGUSR1, "USR1", 3 }, { SIGUSR2, "USR2", 4 },
    { SIGALRM, "ALRM", 0 }, { SIGQUIT, "QUIT", 0 }, { SIGPIPE, "PIPE", 0 }, { SIGCHLD, "CHLD", 0 }, { SIGCONT, "CONT", 0 }, { SIGTSTP, "TSTP", 0 },
    { SIGTTIN, "TTIN", 0 }, { SIGTTOU, "TTOU", 0 }, { SIGPROF, "PROF", 0 }, { SIGSYS, "SYS", 0 }, { SIGTRAP, "TRAP", 0 }, { SIGURG, "URG", 0 },
    { SIGVTALRM, "VTALRM", 0 }, { SIGXCPU, "XCPU", 0 }, { SIGXFSZ, "XFSZ", 0 }, { SIGWINCH, "WINCH", 0 } };
enum { NSG = sizeof sg / sizeof *sg };

struct Shm { std::atomic<uint64_t> sent, blockedcalls, eintrs, masks, pendings, storms, stormsent, lines, noted; std::atomic<uint64_t> h; std::atomic<int> finding; };
static Shm *shm;

static volatile int *const flagp[] = { 0, &coda_changecfg, &coda_terminate, &coda_rotatelog, &coda_changebin };
static const char *const flagn[] = { "", "coda_changecfg", "coda_terminate", "coda_rotatelog", "coda_changebin" };
struct Model { int f[5]; std::set<int> blocked, pending; bool restart; Model() { memset(f, 0, sizeof f); restart = true; } };

static void flags(const Model &m, const char *after)
{
    for (int i = 1; i < 5; ++i) CHECK(!*flagp[i] == !m.f[i], "flag", "after %s %s is %d, expected %s", after, flagn[i], *flagp[i], m.f[i] ? "raised" : "clear");
}
static void take(Model &m, int no) { for (auto &s : sg) if (s.no == no && s.flag) m.f[s.flag] = 1; }
static void check_mask(const Model &m, const std::set<int> &foreign)
{
    sigset_t cur; sigprocmask(SIG_BLOCK, 0, &cur);
    for (int s = 1; s < 32; ++s)
    {
        if (s == SIGKILL || s == SIGSTOP) continue;
        bool want = m.blocked.count(s) || foreign.count(s);
        CHECK((sigismember(&cur, s) != 0) == want, "mask", "signal %d is %sblocked", s, want ? "not " : "");
    }
}
static void init(Model &m, bool restart)
{
    int rc = restart ? coda_signal_init() : coda_signal_init_norestart();
    CHECK(rc == 0, "init", "signal initialisation failed: %s", strerror(errno));
    m.restart = restart;
}
// dispositions before the initialisation
static void stale(int) { }
static void before(Rng &r)
{
    for (auto &s : sg)
    {
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        switch (r.below(6))
        {
        case 0: sa.sa_handler = SIG_IGN; break;
        case 1: sa.sa_handler = stale; sa.sa_flags = SA_RESETHAND; break;
        case 2: sa.sa_handler = stale; sa.sa_flags = SA_RESTART; break;
        case 3: sa.sa_handler = stale; sa.sa_flags = SA_RESTART | SA_NODEFER; sigfillset(&sa.sa_mask); break;
        default: continue;
        }
        sigaction(s.no, &sa, 0);
    }
}

// what the handler logs: one whole line for each delivered signal if the level allows, local time, thread, the signal's name
static string errpath, my_name; static long tz_off = 0;
static void zone(Rng &r)
{
    static const struct { const char *tz; long off; } z[] = { { "UTC0", 0 }, { "AAA-5:45", 20700 }, { "BBB3:30", -12600 }, { "CCC-14", 50400 }, { "DDD12", -43200 }, { "EEE-1", 3600 } };
    unsigned k = (unsigned) r.below(6); setenv("TZ", z[k].tz, 1); tzset(); tz_off = z[k].off;
    static const int lv[] = { LOG_error, LOG_warn, LOG_notice, LOG_notice, LOG_info, LOG_debug }; log_level = lv[r.below(6)];
    my_name = ""; if (r.chance(1, 3)) { static const char *const names[] = { "signalled", "a b", "x" }; my_name = r.chance(1, 3) ? string(r.chance(1, 2) ? 100 + r.below(250) : r.below(5000), 'n') : string(names[r.below(3)]); log_thread_name_set(my_name.c_str()); }
    errpath = opt.dir + "/stderr";
}
static size_t err_size() { struct stat st; return stat(errpath.c_str(), &st) ? 0 : (size_t) st.st_size; }
static string stamp(time_t t) { struct tm m; t += tz_off; gmtime_r(&t, &m); return fmt("%04d-%02d-%02d %02d:%02d:%02d", m.tm_year + 1900, m.tm_mon + 1, m.tm_mday, m.tm_hour, m.tm_min, m.tm_sec); }
static void noted(const Sg &s, size_t from, time_t a, time_t b, bool delivered)
{
    if (errpath.empty()) return;
    string all; { int fd = open(errpath.c_str(), O_RDONLY); char buf[4096]; ssize_t n; off_t at = (off_t) from; while ((n = pread(fd, buf, sizeof buf, at)) > 0) { all.append(buf, (size_t) n); at += n; } close(fd); }
    if (!delivered || log_level < LOG_notice) { CHECK(all.empty(), "noted", "signal %s (%s, level %d) is noted as %s", s.name, delivered ? "delivered" : "blocked", log_level, S(all)); return; }
    CHECK(std::count(all.begin(), all.end(), '\n') == 1 && all[all.size() - 1] == '\n', "noted", "signal %s is noted as %s, not by one line, at level %d", s.name, S(all), log_level);
    bool time_ok = false; for (time_t t = a - 1; t <= b + 1; ++t) time_ok |= all.compare(0, 19, stamp(t)) == 0;
    CHECK(time_ok && all.size() > 24 && all[19] == '.' && isdigit(all[20]) && isdigit(all[21]) && isdigit(all[22]), "noted-time", "the line noting signal %s carries another time than %s: %s", s.name, stamp(a).c_str(), S(all));
    string who = my_name.empty() ? fmt("%lu", (unsigned long) pthread_self()) : my_name, head = " notice " + who + " ";
    if (my_name.size() > 100)       // may be cut, but not to nothing
    {
        size_t e = all.find(' ', 31), shown = e == string::npos ? 0 : e - 31;
        CHECK(shown >= 32 && shown <= my_name.size(), "noted-head", "the line noting signal %s shows %zu of the %zu characters of the thread's name: %s", s.name, shown, my_name.size(), S(all));
        head = " notice " + my_name.substr(0, shown) + " "; ev("signals noted for threads with long names");
    }
    CHECK(all.compare(23, head.size(), head) == 0, "noted-head", "the line noting signal %s has another level or thread than '%s': %s", s.name, head.c_str(), S(all));
    CHECK(all.find(s.name, 23 + head.size()) != string::npos, "noted-name", "the line noting signal %s does not name it: %s", s.name, S(all));
    shm->noted.fetch_add(1);
}

static std::atomic<int> sender_stop;
// blocking calls: what each does with a signal arriving while it waits
static void blocking(Rng &r, Model &m, int shape)
{
    pthread_t me = pthread_self();
    int pfd[2]; HCHECK(!pipe(pfd), "pipe");
    string lock = opt.dir + fmt("/lock.%d", getpid());
    static sem_t sem; sem_init(&sem, 0, 0);
    int lfd = -1, cfd = -1; pid_t kid = -1; int cp[2] = { -1, -1 };
    if (shape == 1)
    {
        HCHECK(!pipe(cp), "pipe");
        kid = fork();
        if (!kid) { for (auto &s : sg) signal(s.no, SIG_DFL); close(cp[1]); char c; while (read(cp[0], &c, 1) < 0) ; _exit(5); }
        close(cp[0]);
    }
    if (shape == 2) { lfd = open(lock.c_str(), O_CREAT | O_RDWR, 0644); cfd = open(lock.c_str(), O_RDWR); flock(lfd, LOCK_EX); }
    std::vector<int> nos; for (int k = 0; k < 3; ++k) { const Sg &s = sg[r.below(NSG)]; if (!m.blocked.count(s.no)) nos.push_back(s.no); }
    if (shape == 1) nos.erase(std::remove(nos.begin(), nos.end(), SIGCHLD), nos.end());
    if (nos.empty() || (shape == 1 && !m.restart && !m.blocked.count(SIGCHLD))) nos.push_back(SIGUSR1), m.blocked.count(SIGUSR1);
    bool deliverable = false; for (int n : nos) if (!m.blocked.count(n)) deliverable = true;
    std::atomic<int> done(0); std::atomic<uint64_t> n(0);
    uint64_t seed = r.next(); bool restart = m.restart;
    sender_stop = 0;
    sigset_t all, was; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &was);
    std::thread sender([&]
    {
        Rng q(seed); double a = now();
        auto release = [&]
        {
            if (shape == 0) { if (write(pfd[1], "x", 1) < 0) { } }
            if (shape == 1) { close(cp[1]); cp[1] = -1; }
            if (shape == 2) flock(lfd, LOCK_UN);
            if (shape == 3) sem_post(&sem);
        };
        int times = 1 + (int) q.below(6);
        while (!done.load())
        {
            usleep((useconds_t) (300 + q.below(2500)));
            if (done.load()) break;
            if (restart || !deliverable) { if (times-- <= 0) { release(); break; } }
            else if (now() - a > 10) { release(); break; }
            pthread_kill(me, nos[q.below(nos.size())]); n.fetch_add(1);
        }
    });
    pthread_sigmask(SIG_SETMASK, &was, 0);
    int rc = 0, e = 0; char c = 0;
    errno = 0;
    switch (shape)
    {
    case 0: rc = (int) read(pfd[0], &c, 1); break;
    case 1: { int st; rc = waitpid(kid, &st, 0); break; }
    case 2: rc = flock(cfd, LOCK_EX); break;
    default: rc = sem_wait(&sem); break;
    }
    e = errno; done = 1; sender.join();
    static const char *const what[] = { "read", "waitpid", "flock", "sem_wait" };
    if (m.restart || !deliverable) CHECK(rc >= 0, "interrupted", "%s failed with %s although the restarting form was chosen", what[shape], strerror(e));
    else CHECK(rc < 0 && e == EINTR, "not-interrupted", "%s returned %d (%s) although the non-restarting form was chosen and %llu signals arrived", what[shape], rc, strerror(e), (unsigned long long) n.load());
    if (rc < 0) shm->eintrs.fetch_add(1);
    shm->blockedcalls.fetch_add(1); shm->sent.fetch_add(n.load());
    for (int k : nos) if (n.load()) { if (m.blocked.count(k)) m.pending.insert(k); }
    // which of them arrived is not known: the flags are at most theirs
    std::set<int> may; for (int k : nos) for (auto &s : sg) if (s.no == k) may.insert(s.flag);
    for (int i = 1; i < 5; ++i) { CHECK(!*flagp[i] || m.f[i] || may.count(i), "flag", "%s is raised by a signal that does not raise it", flagn[i]); if (*flagp[i]) m.f[i] = 1; }
    if (shape == 1)
    {
        if (cp[1] >= 0) close(cp[1]);
        if (rc < 0) { int st; while (waitpid(kid, &st, 0) < 0 && errno == EINTR) ; }
    }
    // blocked ones may be pending now: forget them
    for (int k : nos) if (m.blocked.count(k)) { sigset_t one; sigemptyset(&one); sigaddset(&one, k); struct timespec z = { 0, 0 }; while (sigtimedwait(&one, 0, &z) > 0) ; m.pending.erase(k); }
    if (lfd >= 0) { close(lfd); close(cfd); unlink(lock.c_str()); }
    close(pfd[0]); close(pfd[1]);
    flags(m, what[shape]);
}

// signals storming while code runs that a handler must not disturb
static uint64_t __attribute__((noinline)) work(Rng &q, FILE *f, string &log)
{
    uint64_t h = 0;
    std::map<string, int> t;
    for (int i = 0; i < 40; ++i)
    {
        string s = fmt("%llx-%d-%.3f", (unsigned long long) q.next(), i, (double) q.below(1000) / 7);
        t[s] = i; h = hash(s, h);
        fprintf(f, "%s\n", s.c_str()); log += s + "\n";
        void *p = malloc(q.below(3000)); memset(p, i, 1); free(p);
        errno = 1000 + i;
        for (volatile int k = 0; k < 60; ++k) ;
        CHECK(errno == 1000 + i, "errno", "errno changes from %d to %d under signals", 1000 + i, errno);
        double d = 1; for (int k = 0; k < 20; ++k) d = d * 1.0000001 + 1.0 / (k + 1);
        h = mix(h, (uint64_t) (d * 1e6));
    }
    for (auto &x : t) h = hash(x.first, h + (uint64_t) x.second);
    return h;
}
static void storm(Rng &r, Model &m)
{
    static int serial; ++serial; uint64_t lines = 0; size_t from = read_file(opt.dir + "/stderr").size();
    pthread_t me = pthread_self(); uint64_t seed = r.next(), sseed = r.next();
    int err = dup(2);
    bool full = r.chance(1, 2); bool quiet = r.chance(1, 3); int lv = log_level;
    if (full) { int fd = open("/dev/full", O_WRONLY); dup2(fd, 2); close(fd); }     // the handler's own calls fail
    if (quiet) log_level = LOG_warn;
    string path = opt.dir + fmt("/work.%d", getpid()), log0, log;
    Rng q0(seed); FILE *f0 = fopen(path.c_str(), "w");
    uint64_t want = work(q0, f0, log0); fclose(f0); string file0 = read_file(path);
    HCHECK(file0 == log0, "work file");
    std::atomic<int> done(0); std::atomic<uint64_t> n(0), rounds(0);
    sigset_t all, was; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &was);
    std::thread sender([&] { Rng q(sseed); while (!done.load()) { const Sg &s = sg[q.below(NSG)]; pthread_kill(me, s.no); n.fetch_add(1); if (q.below(3) == 0) usleep((useconds_t) q.below(100)); } });
    pthread_sigmask(SIG_SETMASK, &was, 0);
    double a = now();
    while (n.load() < 150 && now() - a < 5)
    {
        Rng q(seed); FILE *f = fopen(path.c_str(), "w"); log.clear();
        // opening and closing may be interrupted when calls are not restarted
        if (!f) { HCHECK(errno == EINTR, "fopen: %m"); continue; }
        uint64_t h = work(q, f, log); fclose(f);
        CHECK(h == want && log == log0, "disturbed", "computation under signals gave another result");
        if (m.restart) CHECK(read_file(path) == log0, "disturbed", "a file written under signals has other contents");
        for (int k = 0; k < 20; ++k) log_error("<%d.%llu.%s>", serial, (unsigned long long) lines++, string((size_t) (k * 17), 'x').c_str());
        rounds.fetch_add(1);
    }
    done = 1; sender.join();
    if (!full)
    {
        // the lines logged meanwhile are all there, once, whole and in order; between them only whole lines of the handler
        string all = read_file(opt.dir + "/stderr"); uint64_t next = 0; size_t at = from;
        while (at < all.size())
        {
            size_t e = all.find('\n', at); CHECK(e != string::npos, "torn-line", "the log ends within a line: %s", S(all.substr(at)));
            string l = all.substr(at, e - at); at = e + 1;
            size_t b = l.find('<'); int sr = 0; unsigned long long no = 0; int eat = 0;
            if (b == string::npos) { CHECK(l.size() > 20 && l[4] == '-' && l.find(" notice ") != string::npos && l.find(" notice ") == l.rfind(" notice ") && l.find("<") == string::npos, "torn-line", "a line that was not logged: %s", S(l)); continue; }
            CHECK(sscanf(l.c_str() + b, "<%d.%llu.%n", &sr, &no, &eat) == 2 && sr == serial && no == next && l.substr(b + (size_t) eat) == string((size_t) (no % 20 * 17), 'x') + ">", "torn-line", "line %llu logged under signals is lost, repeated or damaged: %s", (unsigned long long) next, S(l));
            ++next;
        }
        CHECK(next == lines, "torn-line", "%llu lines were logged under signals, %llu are there", (unsigned long long) lines, (unsigned long long) next);
        shm->lines.fetch_add(lines);
    }
    log_level = lv; dup2(err, 2); close(err); unlink(path.c_str());
    for (int i = 1; i < 5; ++i) if (*flagp[i]) m.f[i] = 1;
    // anything still pending and blocked is dropped
    struct timespec z = { 0, 0 }; sigset_t b; sigemptyset(&b); for (int s : m.blocked) sigaddset(&b, s);
    while (sigtimedwait(&b, 0, &z) > 0) ;
    m.pending.clear();
    shm->storms.fetch_add(1); shm->stormsent.fetch_add(n.load()); shm->sent.fetch_add(n.load());
}

static void life(Rng &r)
{
    Model m; std::set<int> foreign; uint64_t h = 0; zone(r);
    if (r.chance(1, 2)) before(r);
    flags(m, "start");
    init(m, r.chance(1, 2));
    unsigned steps = 4 + (unsigned) r.below(60);
    for (unsigned k = 0; k < steps; ++k)
    {
        unsigned op = (unsigned) r.below(20); h = mix(h, op);
        if (op < 9)
        {
            const Sg &s = sg[r.below(NSG)]; h = mix(h, (uint64_t) s.no);
            size_t from = err_size(); time_t t0 = time(0);
            errno = 4711;
            switch (r.below(3))
            {
            case 0: raise(s.no); break;
            case 1: kill(getpid(), s.no); break;
            default: { union sigval v; v.sival_int = 7; sigqueue(getpid(), s.no, v); break; }
            }
            CHECK(errno == 4711, "errno", "signal %s changes errno to %d", s.name, errno);
            if (m.blocked.count(s.no)) m.pending.insert(s.no); else take(m, s.no);
            shm->sent.fetch_add(1);
            flags(m, s.name); noted(s, from, t0, time(0), !m.blocked.count(s.no));
        }
        else if (op < 13)
        {
            // masks
            unsigned mask = (unsigned) r.next(); if (r.chance(1, 3)) mask = 1u << r.below(32); if (r.chance(1, 10)) mask = r.chance(1, 2) ? 0 : ~0u;
            int how = (int[]) { SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK }[r.below(3)];
            std::set<int> sel; for (auto &s : sg) if (mask >> s.no & 1) sel.insert(s.no);
            CHECK(coda_signal_mask(how, mask) == 0, "mask", "coda_signal_mask(%d, %x) failed: %s", how, mask, strerror(errno));
            if (how == SIG_SETMASK) { m.blocked = sel; foreign.clear(); }
            for (int s : sel) { if (how == SIG_BLOCK) m.blocked.insert(s); if (how == SIG_UNBLOCK) m.blocked.erase(s); }
            std::vector<int> out; for (int s : m.pending) if (!m.blocked.count(s)) out.push_back(s);
            for (int s : out) { m.pending.erase(s); take(m, s); shm->pendings.fetch_add(1); }
            check_mask(m, foreign); flags(m, "changing the mask"); shm->masks.fetch_add(1);
            h = mix(h, mask);
        }
        else if (op == 13) { for (int i = 1; i < 5; ++i) if (r.chance(2, 3)) { *const_cast<int *>((const int *) flagp[i]) = 0; m.f[i] = 0; } }
        else if (op == 14) { init(m, r.chance(1, 2)); flags(m, "initialisation"); check_mask(m, foreign); }
        else if (op == 15)
        {
            int s = (int[]) { SIGSEGV, SIGILL, SIGPWR, SIGIO }[r.below(4)]; sigset_t b; sigemptyset(&b); sigaddset(&b, s);
            if (foreign.count(s)) { sigprocmask(SIG_UNBLOCK, &b, 0); foreign.erase(s); } else { sigprocmask(SIG_BLOCK, &b, 0); foreign.insert(s); }
            check_mask(m, foreign);
        }
        else if (op == 16)
        {
            // signals as they really come
            errno = 0; int pf[2]; HCHECK(!pipe(pf), "pipe");
            switch (r.below(4))
            {
            case 0: close(pf[0]); CHECK(write(pf[1], "x", 1) < 0 && errno == EPIPE, "pipe", "writing to a broken pipe gave %s", strerror(errno)); pf[0] = -1; break;
            case 1:
            {
                struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = 1000; setitimer(ITIMER_REAL, &it, 0);
                struct timespec t = { 0, 5000000 }; nanosleep(&t, 0); break;
            }
            case 2: { pid_t k = fork(); if (!k) { signal(SIGTERM, SIG_DFL); _exit(0); } int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) ; break; }
            default:
            {
                struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = 0;
                int e = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n);
                string p = opt.dir + fmt("/x.%d", getpid()); int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0644);
                setrlimit(RLIMIT_FSIZE, &l); CHECK(write(fd, "x", 1) < 0, "limit", "a write beyond the size limit works"); setrlimit(RLIMIT_FSIZE, &o);
                close(fd); unlink(p.c_str()); dup2(e, 2); close(e);
            }
            }
            if (pf[0] >= 0) close(pf[0]); close(pf[1]);
            if (m.blocked.size()) { sigset_t b; sigpending(&b); for (int s : { SIGPIPE, SIGALRM, SIGCHLD, SIGXFSZ }) if (sigismember(&b, s)) m.pending.insert(s); }
            flags(m, "a signal that raises none");
        }
        else if (op == 17) storm(r, m);
        else { int s = (int) r.below(4); h = mix(h, (uint64_t) s); blocking(r, m, s); }
    }
    flags(m, "everything");
    shm->h = h;
}

// each signal alone from outside, twice: flag, no stop, no death
static void plain(Rng &r, int form)
{
    zone(r); log_level = LOG_info; Model m; init(m, form == 0);
    for (int round = 0; round < 2; ++round) for (auto &s : sg)
    {
        for (int i = 1; i < 5; ++i) { *const_cast<int *>((const int *) flagp[i]) = 0; m.f[i] = 0; }
        size_t from = err_size(); time_t t0 = time(0);
        raise(s.no); take(m, s.no); flags(m, s.name); shm->sent.fetch_add(1); noted(s, from, t0, time(0), true);
        raise(s.no); flags(m, s.name);
    }
    shm->h = (uint64_t) form + 1;
}
// a signal arriving in the middle of logging
static void reentry(Rng &r)
{
    Model m; init(m, true);
    const Sg &s = sg[r.below(NSG)];
    raise_inside = s.no;
    log_info("interrupted");
    take(m, s.no); flags(m, s.name);
    if (reentered) shm->finding = 1;
    shm->h = 77;
}

void vp_custom()
{
    if (__sanitizer_set_report_path) __sanitizer_set_report_path((opt.out + ".san").c_str());
    shm = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (shm) Shm();
    double end = now() + opt.num("budget", 1000);
    static bool found = false;
    for (uint64_t i = (uint64_t) opt.num("from", 0); i < opt.cases && now() < end; ++i)
    {
        uint64_t seed = opt.seed * 6151 + i * 197 + opt.shard * 1000033 + (uint64_t) opt.num("seedoff", 0);
        int st = 0; int kind = i < 2 ? (int) i : i % 16 == 2 ? 2 : 3;
        fflush(0);
        pid_t k = fork(); HCHECK(k >= 0, "fork");
        if (!k)
        {
            string e = opt.dir + "/stderr"; int fd = open(e.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644); dup2(fd, 2); close(fd);
            setpgid(0, 0);
            Rng r(seed);
            if (kind < 2) plain(r, kind); else if (kind == 2) reentry(r); else life(r);
            _exit(0);
        }
        double a = now(); int rc;
        while ((rc = waitpid(k, &st, WUNTRACED | WNOHANG)) == 0)
        {
            if (now() - a > 60) { kill(k, SIGKILL); waitpid(k, &st, 0); violation("hang", "a process under signals does not go on (round %llu)", (unsigned long long) i); }
            usleep(100);
        }
        HCHECK(rc == k, "waitpid");
        if (WIFSTOPPED(st)) { int s = WSTOPSIG(st); kill(k, SIGKILL); waitpid(k, 0, 0); violation("stopped", "the process is stopped by signal %d", s); }
        if (WIFSIGNALED(st)) violation("killed", "the process is killed by signal %d", WTERMSIG(st));
        if (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79) { save_stats(); _exit(WEXITSTATUS(st)); }
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        if (shm->finding && !found) { found = true; finding("handler-not-reentrant", "a signal arriving while the interrupted code is in localtime_r (as every log line is) makes the handler, which logs, call localtime_r again: the real one waits for its own lock for ever"); }
        evaluated(1); distinct(mix(shm->h, (uint64_t) kind)); ev("processes");
        if (kind == 3 && want_sample()) sample("seed %llu: %llu signals sent so far, %llu blocking calls", (unsigned long long) seed, (unsigned long long) shm->sent, (unsigned long long) shm->blockedcalls);
    }
    ev("signals sent", shm->sent); ev("blocking calls under signals", shm->blockedcalls); ev("of these failed with EINTR", shm->eintrs); ev("mask changes", shm->masks);
    ev("pending signals released", shm->pendings); ev("storms", shm->storms); ev("signals sent in storms", shm->stormsent); ev("lines logged under signals", shm->lines); ev("lines noting a signal", shm->noted);
}
void vp_init() { }
