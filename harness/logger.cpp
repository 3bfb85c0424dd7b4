// C24 concurrent logging with rotation: every line exactly once, whole, in order.
// C25 level filter, line format, thread names, level names, opening logs.
#define VP_SYSWRAP_IMPL
#include "syswrap.hpp"
#include <coda/error.h>
#include <coda/logger.h>
#include <thread>
#include <atomic>
#include <memory>
#include <limits.h>
using namespace vp;
using std::string;

extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));
// log_level is a plain variable read by every logging thread and written by log_create
extern "C" const char *__tsan_default_suppressions() { return "race:log_level\n"; }

static bool is25;
static string dir;

// ---- fake time ---------------------------------------------------------------------------
static thread_local int faked; static struct timeval fake;
extern "C" {
int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *); time_t __real_time(time_t *);
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!faked) return __real_gettimeofday(t, z); *t = fake; errno = ERANGE; return 0; }   // as a call that succeeds may; the time zone file not found does
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{ if (!faked) return __real_clock_gettime(c, t); t->tv_sec = fake.tv_sec; t->tv_nsec = fake.tv_usec * 1000; return 0; }
time_t __wrap_time(time_t *t) { if (!faked) return __real_time(t); if (t) *t = fake.tv_sec; return fake.tv_sec; }
}

static const char *const level_name[] = { "access", "emerg", "alert", "crit", "error", "warn", "notice", "info", "debug" };
static void emit(int level, const char *fmt, const string &s)
{
    (void) fmt;
    switch (level)
    {
    case 0: log_access("%s", s.c_str()); break;
    case 1: log_emerg("%s", s.c_str()); break;
    case 2: log_alert("%s", s.c_str()); break;
    case 3: log_crit("%s", s.c_str()); break;
    case 4: log_error("%s", s.c_str()); break;
    case 5: log_warn("%s", s.c_str()); break;
    case 6: log_notice("%s", s.c_str()); break;
    case 7: log_info("%s", s.c_str()); break;
    case 8: log_debug("%s", s.c_str()); break;
    }
}

// open descriptors other than pipes (the race detector talks to its symbolizer through some)
static int fd_count()
{
    int n = 0;
    for (int fd = 0; fd < 256; ++fd) { struct stat st; if (!fstat(fd, &st) && !S_ISFIFO(st.st_mode)) ++n; }
    return n;
}
// standard error put aside while the code under test uses it
struct KeepErr
{
    int save;
    KeepErr() { save = fcntl(2, F_DUPFD_CLOEXEC, 100); HCHECK(save >= 0, "dup"); }
    ~KeepErr() { dup2(save, 2); close(save); }
};

// ---- C24 ---------------------------------------------------------------------------------
struct Shared { std::atomic<int> go, gen, done, stop; std::atomic<long> rotations; };
static string payload(Rng &r, size_t n)
{
    string s(n, ' ');
    for (auto &c : s) { c = (char) (32 + r.below(224)); if (c == 127) c = '~'; }
    return s;
}
static string line_text(int p, int t, long k, uint64_t seed)
{
    Rng r(mix(mix(seed, (uint64_t) p * 1000 + (uint64_t) t), (uint64_t) k));
    size_t n = 0;
    switch (r.below(8)) { case 0: n = 0; break; case 1: n = (size_t) (r.below(3) ? r.below(3900) : 4020 + r.below(60)); break; case 2: n = (size_t) (900 + r.below(300)); break; case 3: if (r.below(20) == 0) { n = (size_t) r.below(70000); break; } /* fall through */ default: n = (size_t) r.below(120); }
    return fmt("#%d.%d.%ld#", p, t, k) + payload(r, n) + "$";
}
static void log_thread(int p, int t, long lines, uint64_t seed, Shared *sh, int delay)
{
    Rng r(mix(seed, (uint64_t) p * 77 + (uint64_t) t + 5));
    string name = fmt("worker-%d-%d", p, t);
    bool named = (t % 3) != 0;
    if (named) HCHECK(log_thread_name_set(name.c_str()) == 0, "thread name");
    sh->go.fetch_add(1); 
    for (long k = 0; k < lines; ++k)
    {
        string s = line_text(p, t, k, seed);
        int lv = 1 + (int) ((k + t) % 7);
        if ((k & 3) == 0)
        {
            string head = s.substr(0, s.size() / 2), tail = s.substr(s.size() / 2);
            if (lv == 7) log_info("%s%s", head.c_str(), tail.c_str()); else log_warn("%s%.*s", head.c_str(), (int) tail.size(), tail.c_str());
        }
        else emit(lv, 0, s);
        if (delay && r.below(4) == 0) usleep((useconds_t) r.below((uint64_t) delay));
    }
    if (named) log_thread_name_set(0);
}
// rotation: in the leader rename and re-create, in the others re-create once told
static void rotate_thread(int p, const string &path, long want, uint64_t seed, Shared *sh, std::atomic<int> *finished, int threads, int delay)
{
    Rng r(mix(seed, 991 + (uint64_t) p));
    int seen = 0;
    while (1)
    {
        bool fin = finished->load() >= threads;
        if (p == 0 && want > 0 && !fin)
        {
            int g = sh->gen.load();
            HCHECK(rename(path.c_str(), fmt("%s.%03d", path.c_str(), g).c_str()) == 0, "rename: %m");
            if (r.below(3) == 0) usleep((useconds_t) r.below(300));
            sh->gen.fetch_add(1); --want;
            ++seen;
            Sys s; vp_sys.rng = &r; vp_sys.delay = delay;
            CHECK(log_rotate(path.c_str()) == 2, "rotate-failed", "log_rotate failed: %s", strerror(errno));
        }
        else if (p != 0 && sh->gen.load() != seen)
        {
            seen = sh->gen.load();
            Sys s; vp_sys.rng = &r; vp_sys.delay = delay;
            CHECK(log_create(path.c_str(), LOG_debug) == 2, "rotate-failed", "log_create failed: %s", strerror(errno));
        }
        if (fin) return;
        usleep((useconds_t) r.below(p == 0 ? 1500 : 400));
    }
}
static void process(int p, int procs, const string &path, int threads, long lines, long rotations, uint64_t seed, Shared *sh, int delay)
{
    KeepErr keep;
    int fds = fd_count();
    CHECK(log_create(path.c_str(), LOG_debug) == 2, "create", "log_create failed: %s", strerror(errno));
    CHECK(fd_count() == fds, "fd-leak", "log_create leaks a descriptor");
    sh->done.fetch_add(1);
    while (sh->done.load() < procs) usleep(100);
    std::atomic<int> finished(0);
    std::vector<std::thread> th;
    std::thread rot([&] { rotate_thread(p, path, rotations, seed, sh, &finished, threads, delay); });
    for (int t = 0; t < threads; ++t) th.emplace_back([&, t] { log_thread(p, t, lines, seed, sh, delay); finished.fetch_add(1); });
    for (auto &t : th) t.join();
    rot.join();
    CHECK(fd_count() == fds, "fd-leak", "rotating the log leaks descriptors");
}
static bool digits(const string &s, size_t at, size_t n) { for (size_t i = 0; i < n; ++i) if (at + i >= s.size() || s[at + i] < '0' || s[at + i] > '9') return false; return true; }

static void round24(Rng &r, int procs)
{
    static int serial; ++serial;
    string base = fmt("%s/r%d", dir.c_str(), serial), path = base + "/sub/log";
    int threads = 1 + (int) r.below(procs > 1 ? 4 : 8); long lines = 1 + (long) r.below(procs > 1 ? 200 : 400), rotations = r.chance(1, 5) ? 0 : 1 + (long) r.below(12);
    int delay = r.chance(1, 3) ? 0 : 1 + (int) r.below(150);
    uint64_t seed = r.next();
    string old;
    if (r.chance(1, 2))
    {
        old = payload(r, (size_t) r.below(500)) + "\n";
        mkdir(base.c_str(), 0755); mkdir((base + "/sub").c_str(), 0755); write_file(path, old);
    }
    Shared *sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    if (procs == 1) process(0, 1, path, threads, lines, rotations, seed, sh, delay);
    else
    {
        std::vector<pid_t> kids;
        for (int p = 0; p < procs; ++p)
        {
            pid_t k = fork(); HCHECK(k >= 0, "fork");
            if (!k) { process(p, procs, path, threads, lines, rotations, seed, sh, delay); _exit(0); }
            kids.push_back(k);
        }
        int bad = 0;
        for (pid_t k : kids)
        {
            int st = 0;
            if (bad) kill(k, SIGKILL);
            waitpid(k, &st, 0);
            if (!bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 200;
        }
        if (bad == 77) _exit(77);
        CHECK(bad == 0, "process-failed", "a logging process failed (%d)", bad);
    }
    int files = sh->gen.load() + 1;
    munmap(sh, sizeof *sh);
    // offline: all files in order of their creation
    std::map<std::pair<int, int>, long> next; size_t total = 0;
    uint64_t h = 0; size_t switches = 0; std::pair<int, int> lastw(-1, -1);
    for (int g = 0; g < files; ++g)
    {
        string f = g + 1 < files ? fmt("%s.%03d", path.c_str(), g) : path;
        string all = read_file(f);
        size_t at = 0;
        if (g == 0)
        {
            CHECK(all.size() >= old.size() && all.compare(0, old.size(), old) == 0, "truncated", "opening the log changed what was in the file: %zu bytes before, it starts with %s", old.size(), S(all.substr(0, 60)));
            at = old.size();
        }
        while (at < all.size())
        {
            size_t e = all.find('\n', at);
            CHECK(e != string::npos, "torn", "the last line of file %d of %d is cut: %s", g, files, S(all.substr(at, 100)));
            string l = all.substr(at, e - at); at = e + 1;
            // 2015-01-01 00:00:00.000 level thread text
            bool ok = l.size() > 24 && digits(l, 0, 4) && l[4] == '-' && digits(l, 5, 2) && l[7] == '-' && digits(l, 8, 2) && l[10] == ' ' && digits(l, 11, 2) && l[13] == ':' && digits(l, 14, 2) && l[16] == ':' && digits(l, 17, 2) && l[19] == '.' && digits(l, 20, 3) && l[23] == ' ';
            size_t a = ok ? l.find(' ', 24) : string::npos, b = a == string::npos ? a : l.find(' ', a + 1);
            CHECK(b != string::npos, "torn", "not a log line in file %d of %d: %s", g, files, S(l));
            string who = l.substr(a + 1, b - a - 1), text = l.substr(b + 1);
            int p = -1, t = -1; long k = -1;
            CHECK(sscanf(text.c_str(), "#%d.%d.%ld#", &p, &t, &k) == 3 && p >= 0 && p < procs && t >= 0 && t < threads && k >= 0 && k < lines, "torn", "not a line that was logged, in file %d of %d: %s", g, files, S(text));
            CHECK(text == line_text(p, t, k, seed), "mixed", "line %ld of thread %d.%d is not as it was logged: %s", k, p, t, S(text));
            if (t % 3) CHECK(who == fmt("worker-%d-%d", p, t), "thread-name", "a line of thread worker-%d-%d carries the name %s", p, t, S(who));
            else CHECK(digits(who, 0, who.size()), "thread-name", "a line of an unnamed thread carries the name %s", S(who));
            long &n = next[std::make_pair(p, t)];
            CHECK(k >= n, k + 1 == n ? "repeated" : "order", "line %ld of thread %d.%d comes after line %ld", k, p, t, n - 1);
            CHECK(k == n, "lost", "thread %d.%d: line %ld is followed by line %ld", p, t, n - 1, k);
            ++n; ++total;
            if (std::make_pair(p, t) != lastw) { ++switches; lastw = std::make_pair(p, t); h = mix(h, (uint64_t) p * 100 + (uint64_t) t); }
        }
        h = mix(h, 0xF00 + (uint64_t) g);
    }
    for (int p = 0; p < procs; ++p) for (int t = 0; t < threads; ++t)
        CHECK(next[std::make_pair(p, t)] == lines, "lost", "thread %d.%d: only %ld of %ld lines are there", p, t, next[std::make_pair(p, t)], lines);
    evaluated(1); distinct(h);
    ev("lines found exactly once", total); ev("changes of writer between lines", switches); ev("rotations", (uint64_t) (files - 1)); ev("logging threads", (uint64_t) (procs * threads)); ev("rounds");
    if (procs > 1) ev("rounds with several processes");
    if (!old.empty()) ev("logs opened over existing content");
    if (want_sample()) sample("%d processes x %d threads x %ld lines, %d rotations, delays up to %d us, %zu changes of writer", procs, threads, lines, files - 1, delay, switches);
    for (int g = 0; g < files; ++g) unlink((g + 1 < files ? fmt("%s.%03d", path.c_str(), g) : path).c_str());
    rmdir((base + "/sub").c_str()); rmdir(base.c_str());
}
void vp_custom()
{
    double end = now() + opt.num("budget", 1000);
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i)
    {
        Rng r(opt.seed * 7919 + i * 131 + opt.shard * 100003 + (uint64_t) opt.num("seedoff", 0));
        round24(r, opt.num("procs", 1) > 1 ? 2 + (int) r.below((uint64_t) opt.num("procs", 2) - 1) : 1);
    }
}

// ---- C25 ---------------------------------------------------------------------------------
static int want_level(const char *s)
{
    char a = (char) tolower((unsigned char) s[0]), b = s[0] ? (char) tolower((unsigned char) s[1]) : 0;
    if (a == 'a' && b == 'c') return 0;
    if (a == 'e' && b == 'm') return 1;
    if (a == 'a' && b == 'l') return 2;
    if (a == 'c') return 3;
    if (a == 'e' && b == 'r') return 4;
    if (a == 'w') return 5;
    if (a == 'n') return 6;
    if (a == 'd') return 8;
    return 7;
}
static void levels(const string &s)
{
    ExactZ z(s);
    int l = log_levels(z.p);
    CHECK(l == want_level(z.p), "level-name", "level name %s means %d, expected %d", S(s), l, want_level(z.p));
    ev("level names");
}
static const char *const zones[] = { "UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-12>12", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "XXX3:21:07" };
static string stamp()
{
    struct tm t; time_t s = fake.tv_sec; localtime_r(&s, &t);
    return fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (int) (fake.tv_usec / 1000));
}
static void pick_time(In &in)
{
    switch (in.below(5))
    {
    case 0: fake.tv_sec = 1425772800 + (long) in.below(7200) - 3600; break;           // around a change to summer time
    case 1: fake.tv_sec = (long) in.below(0x7fffffff); break;
    case 2: fake.tv_sec = (long) in.below(200000); break;
    case 3: fake.tv_sec = 951782400 + (long) in.below(86400 * 3) - 86400; break;      // around a 29 February
    default: fake.tv_sec = 253402300799l - (long) in.below(86400 * 400); break;
    }
    static const int us[] = { 0, 1, 999, 1000, 1999, 9999, 10000, 99999, 100000, 500000, 999000, 999999 };
    fake.tv_usec = in.chance(1, 2) ? us[in.below(12)] : (int) in.below(1000000);
}

struct World
{
    std::vector<string> files; std::map<string, string> want; string at;               // file standard error is directed to
    int level;
};
static string read_new(const string &path, size_t from) { string s = read_file(path); return s.size() >= from ? s.substr(from) : "<shrunk>"; }

// as they stand in functions that report and give up
static int returned(int e, const string &text) { errno = e; return log_ret(errno, "%s", text.c_str()); }
static void died(bool cond, int e, const string &text)
{
    atexit([] { _exit(EXIT_FAILURE); });                                                // nothing of this process but its message and status counts
    errno = e; if (cond) log_die(errno, "%s", text.c_str());
}

// logs one message and compares what appeared in the current destination
static void message(World &w, int level, int form, const string &text, const string &name, string *id)
{
    size_t before = w.want[w.at].size();
    faked = 1;
    string body = text;
    switch (form)
    {
    case 0: emit(level, 0, text); break;
    case 1: { int e = (int) text.size() % 130; errno = e; log_err(errno, "%s", text.c_str()); level = 4; faked = 0; body = text + fmt(" (%d: %s)", e, strerror(e)); break; }
    case 2: { int n = (int) text.size(); log_warn("%d%%|%-6s|%c|%s|%05x", n, "ab", 'q', text.c_str(), 0xbeef); level = 5; body = fmt("%d%%|%-6s|%c|%s|%05x", n, "ab", 'q', text.c_str(), 0xbeef); break; }
    case 3: log_info("plain text"); level = 7; body = "plain text"; break;
    case 5:
    {
        // reporting a code and returning it
        int e = (int) text.size() % 130;
        int r = returned(e, text);
        level = 4; faked = 0; body = text + fmt(" (%d: %s)", e, strerror(e));
        CHECK(r == e, "log-ret", "log_ret of %d gave %d", e, r);
        ev("codes logged and returned");
        break;
    }
    case 6:
    {
        // reporting a code and ending the process, where the condition for it holds
        int e = (int) text.size() % 130; bool dies = text.size() & 1;
        fflush(0);
        pid_t k = fork(); HCHECK(k >= 0, "fork");
        if (!k) { died(dies, e, text); _exit(33); }
        int st = 0; waitpid(k, &st, 0);
        faked = 0; level = 1; body = text + fmt(" (%d: %s)", e, strerror(e));
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (dies ? EXIT_FAILURE : 33), "log-die", dies ? "log_die ended the process with status %x" : "a log_die under a condition that does not hold ended the process with status %x", st);
        ev(dies ? "processes ended by a message" : "messages under a condition that does not hold");
        if (!dies) { string got = read_new(w.at, before); CHECK(got.empty(), "log-die", "a log_die under a condition that does not hold logged %s", S(got)); return; }
        break;
    }
    default: if (text.size() & 1) { log_debug(""); level = 8; body = ""; } else { log_fmt(stderr, level, "own", "%s", text.c_str()); } break;
    }
    faked = 0;
    string got = read_new(w.at, before);
    bool shown = level <= w.level;
    const char *lname = form == 4 && !(text.size() & 1) ? "own" : level_name[level];
    if (!shown) { CHECK(got.empty(), "filter", "a message of level %d appears at level %d: %s", level, w.level, S(got)); ev("messages filtered out"); return; }
    CHECK(!got.empty(), "filter", "a message of level %d does not appear at level %d", level, w.level);
    string who = name;
    if (name.empty())
    {
        string head = stamp() + " " + lname + " ";
        CHECK(got.compare(0, head.size(), head) == 0, "format", "the line is %s, expected it to start with %s", S(got), S(head));
        size_t e = got.find(' ', head.size());
        who = e == string::npos ? "" : got.substr(head.size(), e - head.size());
        CHECK(!who.empty() && who.find_first_not_of("0123456789") == string::npos, "thread-id", "the thread has no name and its line is %s", S(got));
        if (id) *id = who;
    }
    string want = stamp() + " " + lname + " " + who + " " + body + "\n";
    CHECK(got == want, "format", "the line is %s, expected %s", S(got), S(want));
    w.want[w.at] += got;
    ev("lines compared");
}
static string message_text(In &in)
{
    switch (in.below(6))
    {
    case 0: return "";
    case 1: return in.bytes(in.below(20), "%sdn \\\"'");
    case 2: { bool wide = in.chance(1, 4); string s = in.bytes(in.len(wide ? opt.phase == "rand" ? 70000 : 9000 : 3900)); if (s.size() > 4095) ev("messages of more than 4095 bytes"); for (auto &c : s) if (c == 0 || c == '\n') c = '.'; return s; }
    default: return in.bytes(in.below(60), "abcdefghij XYZ0123456789.,:");
    }
}
static bool same_file(int fd, const string &path) { struct stat a, b; return !fstat(fd, &a) && !stat(path.c_str(), &b) && a.st_ino == b.st_ino && a.st_dev == b.st_dev; }

static void remove_tree(const string &d) { if (fork() == 0) { execlp("rm", "rm", "-rf", d.c_str(), (char *) 0); _exit(127); } int st; wait(&st); }

static void open_log(World &w, In &in, const string &base, std::vector<string> &made)
{
    // destination
    string path; bool fail = false; int why = 0;
    static int serial;
    unsigned kind = in.below(9);
    if (kind < 3 && !made.empty()) path = made[in.below((unsigned) made.size())];
    else if (kind < 6)
    {
        path = base;
        for (unsigned k = in.below(4); k--; ) path += in.chance(1, 3) ? "/" + fmt("d%u", in.below(3)) : "/" + string(1 + in.below(40), 'n') + fmt("%u", in.below(3));
        path += fmt("/log%d", ++serial);
        if (in.chance(1, 8)) { size_t k = base.size(); path.insert(k, "//."); }
    }
    else if (kind == 6) { path = base; fail = true; why = 1; }                                  // a directory
    else if (kind == 7 && !made.empty()) { path = made[0] + "/x/y"; fail = true; why = 2; }     // below a file
    else if (in.chance(1, 2))
    {
        // around the longest path there is
        size_t n = 4088 + in.below(14); path = base + "/"; string f = fmt("log%d", ++serial); while (path.size() + f.size() + 2 <= n) path += "./"; if (path.size() + f.size() < n) path += "/"; path += f;
        fail = path.size() >= 4096; why = 3; ev(fail ? "paths just too long" : "paths just not too long");
    }
    else { path = base + "/" + string(in.chance(1, 2) ? 300 : 5000, 'l'); fail = true; why = 3; }  // too long
    int lv = (int) in.below(10);
    long fault = !fail && in.chance(1, 4) ? 1 + (long) in.below(6) : 0;
    bool closed = !fault && !fail && in.chance(1, 12);
    // the path lies in memory that must not be written
    size_t n = (path.size() + 1 + 4095) / 4096 * 4096;
    char *m = (char *) mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char *p = m + n - path.size() - 1; memcpy(p, path.c_str(), path.size() + 1); mprotect(m, n, PROT_READ);
    if (closed) close(2);
    int fds = fd_count() + (closed ? 1 : 0), rc; const char *failed = 0; long calls;
    int oldlevel = log_level;
    bool fromstr = in.chance(1, 4); bool rot = !fromstr && in.chance(1, 4);
    errno = 0;
    {
        Sys s(fault, fault % 3 == 0 ? EMFILE : EACCES);
        rc = fromstr ? log_create_from_str(p, level_name[lv < 9 ? lv : 7]) : rot ? log_rotate(p) : log_create(p, lv);
        failed = s.failed(); calls = s.seen();
    }
    (void) calls;
    munmap(m, n);
    int newfds = fd_count();
    CHECK(newfds == fds, "fd-leak", "opening %s (%s) returned %d and changed the number of open descriptors from %d to %d", S(path), failed ? failed : "", rc, fds, newfds);
    if (failed && !strcmp(failed, "close")) fault = 0, failed = 0;                    // the log was switched all the same: either answer will do
    else if (rc == 2 && failed) CHECK(same_file(2, path), "lies", "opening %s is reported to succeed (%s failed) but standard error is elsewhere", S(path), failed);
    else if (fail || failed) CHECK(rc == -1, "unreported", "opening %s (reason %d, %s) returned %d", S(path), why, failed ? failed : "", rc);
    else CHECK(rc == 2, "refused", "opening %s returned %d: %s", S(path), rc, strerror(errno));
    if (same_file(2, path) && !fail && rc != -1)
    {
        CHECK(log_level == (fromstr ? (lv < 9 ? lv : 7) : rot ? oldlevel : lv), "level", "opening the log set level %d", log_level);
        if (std::find(made.begin(), made.end(), path) == made.end()) made.push_back(path);
        w.at = path; ev("logs opened"); if (closed) ev("logs opened with standard error closed");
    }
    else
    {
        if (rc == -1 && fault == 0 && !fail && same_file(2, path)) { w.at = path; log_level = w.level = oldlevel; return; }
        CHECK(same_file(2, w.at), "destination", "a failed opening of %s (reason %d, %s) changed where standard error goes", S(path), why, failed ? failed : "");
        CHECK(log_level == oldlevel, "level", "a failed opening of the log changed the level from %d to %d", oldlevel, log_level);
        ev("failed openings");
    }
    w.level = log_level;
    if (!w.want.count(w.at)) w.want[w.at] = "";
    CHECK(read_file(w.at) == w.want[w.at], "truncated", "opening the log changed the contents of the file");
}

void vp_case(In &in)
{
    if (!is25) return;
    KeepErr keep;
    static int serial; string base = fmt("%s/c%d", dir.c_str(), ++serial);
    mkdir(base.c_str(), 0755);
    int fds = fd_count();
    setenv("TZ", zones[in.below(8)], 1); tzset();
    World w; std::vector<string> made;
    CHECK(log_create((base + "/start").c_str(), LOG_info) == 2, "refused", "opening a log failed: %s", strerror(errno));
    w.at = base + "/start"; w.level = LOG_info; w.want[w.at] = ""; made.push_back(w.at);
    static const string broad(5000, 'w'); const char *names[] = { "main", "", "a thread", in.chance(1, 4) ? broad.c_str() : "t-1", "%s%n" };
    string name; std::vector<string> own; own.reserve(50);
    unsigned steps = 1 + in.below(12);
    for (unsigned k = 0; k < steps && in.more(); ++k)
    {
        unsigned op = in.below(10); sig(op);
        if (op < 5)
        {
            pick_time(in);
            string text = message_text(in); unsigned form = in.below(12); int lv = (int) in.below(9);
            message(w, lv, form > 6 || (form == 6 && !in.chance(1, 8)) ? 0 : (int) form, text, name, 0);
            sig(hash(text)); sig((uint64_t) lv);
        }
        else if (op == 5)
        {
            unsigned n = in.below(6);
            if (n == 5 || !*names[n]) { CHECK(log_thread_name_set(0) == 0, "name", "a thread name is refused"); name.clear(); CHECK(log_thread_name_get() == 0, "name", "a removed thread name is still there"); }
            else { own.push_back(names[n]); CHECK(log_thread_name_set(own.back().c_str()) == 0, "name", "a thread name is refused"); name = own.back(); const char *g = log_thread_name_get(); CHECK(g && name == g, "name", "the thread name %s reads as %s", S(name), g ? g : "(null)"); }
        }
        else if (op == 6)
        {
            // another thread: has no name of its own, naming it changes nothing here
            pick_time(in);
            string other = in.chance(1, 2) ? "other" : ""; string id1, id2; string text = message_text(in);
            std::thread([&] {
                CHECK(log_thread_name_get() == 0, "name", "a new thread has a name");
                message(w, 4, 0, text, "", &id1);
                if (!other.empty()) { log_thread_name_set(other.c_str()); message(w, 3, 0, text, other, 0); }
            }).join();
            message(w, 4, 0, text, name, &id2);
            if (!id1.empty() && !id2.empty()) CHECK(id1 != id2, "thread-id", "two threads have the same id %s", id1.c_str());
            ev("lines from other threads");
        }
        else open_log(w, in, base, made);
    }
    string s = message_text(in); levels(in.chance(1, 2) ? string(level_name[in.below(9)]) : s);
    log_thread_name_set(0);
    for (auto &x : w.want) CHECK(read_file(x.first) == x.second, "destination", "file %s holds what was not logged to it, or misses lines", S(x.first));
    CHECK(fd_count() == fds, "fd-leak", "descriptors are leaked");
    sig(steps); mark();
    if (want_sample()) sample("%u steps, %zu log files, last line %s", steps, w.want.size(), S(w.want[w.at].substr(w.want[w.at].size() > 100 ? w.want[w.at].size() - 100 : 0)));
    remove_tree(base);
    log_level = LOG_info;
}
uint64_t vp_exh_count(bool) { return is25 ? 256 + 9 * 12 + 16 : 0; }
void vp_exh(uint64_t i)
{
    if (i < 256)
    {
        // all two-character level names, and all real ones in every mixture of cases
        for (unsigned b = 0; b < 256; ++b)
        {
            string s(1, (char) i); if (i) s += (char) b;
            levels(s.c_str()); if (i && b) { levels(s + "x"); levels(s + "debug"); }
        }
        if (i < 9)
        {
            string n = level_name[i];
            for (unsigned m = 0; m < 1u << n.size(); ++m)
            {
                string s = n; for (size_t k = 0; k < n.size(); ++k) if (m >> k & 1) s[k] = (char) toupper(s[k]);
                levels(s); CHECK(log_levels(s.c_str()) == (int) i, "level-name", "level name %s means %d", S(s), log_levels(s.c_str()));
            }
        }
        sig(i); mark(); return;
    }
    if (i >= 256 + 9 * 12)
    {
        // lines of every length around the powers of two, named and not
        KeepErr keep; i -= 256 + 9 * 12; string f = dir + "/exh"; unlink(f.c_str());
        setenv("TZ", "UTC", 1); tzset(); fake.tv_sec = 1000000000 + (long) i; fake.tv_usec = 7000;
        CHECK(log_create(f.c_str(), 7) == 2, "refused", "opening failed");
        World w; w.at = f; w.level = 7; w.want[f] = ""; string name = i & 1 ? "me" : "";
        if (i & 1) log_thread_name_set("me");
        size_t mid = (size_t) 512 << (i / 2), head = strlen("2001-09-09 01:46:40.007 info  \n") + (i & 1 ? 2 : 15);
        for (size_t n = mid - head - 6; n < mid - head + (mid == 4096 ? 60 : 7); ++n)
        {
            message(w, 7, 0, string(n, 'x') + "y", name, 0);
            if (w.want[f].size() > 200000) { HCHECK(ftruncate(2, 0) == 0, "truncate"); w.want[f] = ""; }
        }
        log_thread_name_set(0); log_level = LOG_info;
        sig(i); mark(); ev("lines around a power of two", 13); return;
    }
    // every level of message at every level of the log
    KeepErr keep;
    int lv = (int) (i - 256) % 9, cur = (int) (i - 256) / 9 - 1;
    string f = dir + "/exh"; unlink(f.c_str());
    setenv("TZ", "UTC", 1); tzset();
    if (cur == 10) { CHECK(log_level == LOG_info, "level", "the initial level is %d", log_level); int fd = open(f.c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644); dup2(fd, 2); close(fd); cur = LOG_info; }
    else CHECK(log_create(f.c_str(), cur) == 2, "refused", "opening failed");
    World w; w.at = f; w.level = cur; w.want[f] = "";
    fake.tv_sec = 1000000000 + (long) i; fake.tv_usec = 7000;
    message(w, lv, 0, "some text", "", 0);
    log_thread_name_set("me"); message(w, lv, 0, "some text", "me", 0); log_thread_name_set(0);
    log_level = LOG_info;
    sig(i); mark();
}
void vp_init()
{
    is25 = opt.str("prop", "C25") == "C25";
    dir = opt.dir;
    if (__sanitizer_set_report_path) __sanitizer_set_report_path((opt.out + ".san").c_str());
}
