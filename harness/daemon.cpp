// C35 option parsing against a model; start-up and stop of live processes observed from outside and inside.
#define VP_SYSWRAP_IMPL
#include "syswrap.hpp"
#include <coda/daemon.h>
#include <coda/logger.h>
#include <coda/system.h>
#include <getopt.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/sysmacros.h>
using namespace vp;
using std::string;

extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));

// ---- options -----------------------------------------------------------------------------
struct Want { bool err; bool hc, hp; string c, p; int d; };
static bool longopt(const string &name, int &which)
{
    static const char *const n[] = { "config", "pid", "daemon", "no-daemon" };
    which = -1; int k = 0;
    for (int i = 0; i < 4; ++i) { if (name == n[i]) { which = i; return true; } if (string(n[i]).compare(0, name.size(), name) == 0) { which = i; ++k; } }
    return k == 1;
}
static Want model(const std::vector<string> &a)
{
    Want w; w.err = false; w.hc = w.hp = false; w.d = 0;
    auto arg = [&](int which, const string &v) { if (which == 0) { w.hc = true; w.c = v; } else { w.hp = true; w.p = v; } };
    for (size_t i = 1; i < a.size(); ++i)
    {
        const string &s = a[i];
        if (s == "--") break;
        if (s.size() < 2 || s[0] != '-') continue;            // an operand
        if (s[1] == '-')
        {
            size_t e = s.find('='); string name = s.substr(2, e == string::npos ? e : e - 2); int which;
            if (!longopt(name, which)) { w.err = true; return w; }
            if (which >= 2) { if (e != string::npos) { w.err = true; return w; } w.d = which == 2; continue; }
            if (e != string::npos) arg(which, s.substr(e + 1));
            else if (i + 1 < a.size()) arg(which, a[++i]);
            else { w.err = true; return w; }
            continue;
        }
        for (size_t k = 1; k < s.size(); ++k)
        {
            if (s[k] == 'd') w.d = 1;
            else if (s[k] == 'D') w.d = 0;
            else if (s[k] == 'c' || s[k] == 'p')
            {
                int which = s[k] == 'p';
                if (k + 1 < s.size()) arg(which, s.substr(k + 1));
                else if (i + 1 < a.size()) arg(which, a[++i]);
                else { w.err = true; return w; }
                break;
            }
            else { w.err = true; return w; }
        }
    }
    return w;
}
static string joined(const std::vector<string> &a) { string s; for (auto &x : a) s += (s.empty() ? "" : " ") + show(x); return s; }
static void parse(const std::vector<string> &a)
{
    std::vector<char *> argv; for (auto &x : a) argv.push_back(strdup(x.c_str())); argv.push_back(0);
    std::vector<char *> own = argv;
    coda_getopt_t o; { static unsigned n = 0; memset(&o, (int[]) { 0xFF, 0xEE, 0x00, 0x55 }[n++ % 4], sizeof o); }
    int save = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n);
    optind = 0;
    int rc = coda_getopt_parse((int) a.size(), argv.data(), &o);
    dup2(save, 2); close(save);
    Want w = model(a);
    CHECK(rc == (w.err ? -1 : 0), w.err ? "accepted" : "refused", "parsing %s returns %d", joined(a).c_str(), rc);
    if (!w.err)
    {
        CHECK((o.config != 0) == w.hc && (!w.hc || w.c == o.config), "config", "parsing %s gives configuration file %s, expected %s", joined(a).c_str(), o.config ? o.config : "(none)", w.hc ? w.c.c_str() : "(none)");
        CHECK((o.pid != 0) == w.hp && (!w.hp || w.p == o.pid), "pid", "parsing %s gives pid file %s, expected %s", joined(a).c_str(), o.pid ? o.pid : "(none)", w.hp ? w.p.c_str() : "(none)");
        CHECK((int) o.daemon == w.d, "daemon", "parsing %s gives daemon %d, expected %d", joined(a).c_str(), (int) o.daemon, w.d);
        ev("command lines accepted");
    }
    else ev("command lines refused");
    for (char *p : own) free(p);
}
static const char *const words[] = { "-c", "-p", "-d", "-D", "--config", "--pid", "--daemon", "--no-daemon", "file", "--", "-cfile", "-pfile", "--config=file", "--pid=", "-dD", "-Dd", "-x", "--unknown",
    "-", "", "--daemon=1", "-dcX", "--conf", "--no", "--p=x", "-h", "--d", "-dx", "a b", "-D", "--help", "-dpD", "--=", "--no-daemon=" };
enum { NW = sizeof words / sizeof *words };
void vp_case(In &in)
{
    std::vector<string> a(1, "prog");
    unsigned n = in.below(9);
    for (unsigned k = 0; k < n; ++k) a.push_back(in.chance(1, 10) ? in.bytes(in.below(8), "-cpdDx=ab").c_str() : words[in.below(NW)]);
    parse(a);
    for (auto &x : a) sig(hash(x));
    if (n) mark();
    if (want_sample() && n > 2) sample("%s", joined(a).c_str());
}
uint64_t vp_exh_count(bool t) { uint64_t n = 0; for (int l = 0, p = 1; l <= (t ? 4 : 3); ++l, p *= NW) n += (uint64_t) p; return n; }
void vp_exh(uint64_t i)
{
    int l = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= NW; ++l; }
    std::vector<string> a(1, "prog"); for (int k = 0; k < l; ++k, i /= NW) a.push_back(words[i % NW]);
    parse(a); for (auto &x : a) sig(hash(x)); if (l) mark();
}

// ---- start and stop ----------------------------------------------------------------------
struct Report
{
    int filled; int rc; pid_t pid, ppid, sid, pgid; unsigned mask; int fds; int null0, null1, rd0, wr1; dev_t d2; ino_t i2; int has2; char pidfile[64]; int flags[5]; int stop_rc; int there_after; int lines; const char *failed; char failedname[16]; int tty;
};
static Report *rep;
static bool null_dev(int fd) { struct stat st; return !fstat(fd, &st) && S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3); }
static int count_fds() { int n = 0; for (int fd = 0; fd < 128; ++fd) if (fcntl(fd, F_GETFD) >= 0) ++n; return n; }

// what the started program finds
static void fill(Report &r, int rc, const string &pidpath, bool stop)
{
    r.rc = rc; r.pid = getpid(); r.ppid = getppid(); r.sid = getsid(0); r.pgid = getpgid(0);
    r.mask = umask(077); umask(r.mask);
    r.fds = count_fds(); r.null0 = null_dev(0); r.null1 = null_dev(1);
    char c; r.rd0 = r.null0 && read(0, &c, 1) == 0; r.wr1 = r.null1 && write(1, "x", 1) == 1;
    struct stat st; r.has2 = !fstat(2, &st); r.d2 = st.st_dev; r.i2 = st.st_ino;
    string p = pidpath.empty() ? "" : read_file(pidpath); snprintf(r.pidfile, sizeof r.pidfile, "%s", p.c_str());
    int t = open("/dev/tty", O_RDWR); r.tty = t >= 0; if (t >= 0) close(t);
    if (rc == 0)
    {
        static const int sg[] = { SIGHUP, SIGINT, SIGUSR1, SIGUSR2, SIGPIPE };
        static volatile int *const f[] = { &coda_changecfg, &coda_terminate, &coda_rotatelog, &coda_changebin };
        for (int k = 0; k < 5; ++k)
        {
            for (int j = 0; j < 4; ++j) *const_cast<int *>((const int *) f[j]) = 0;
            raise(sg[k]); int got = 0; for (int j = 0; j < 4; ++j) got |= (*f[j] ? 1 : 0) << j;
            r.flags[k] = got;
        }
        if (stop)
        {
            coda_getopt_t o; memset(&o, 0, sizeof o); if (!pidpath.empty()) o.pid = pidpath.c_str();
            r.stop_rc = coda_daemon_stop(&o); struct stat s; r.there_after = !pidpath.empty() && !stat(pidpath.c_str(), &s);
        }
    }
    r.filled = 1;
}
static int reap(pid_t k, const char *what)
{
    int st; double a = now(); pid_t w;
    while ((w = waitpid(k, &st, WNOHANG)) == 0) { if (now() - a > 20) { kill(k, SIGKILL); violation("hang", "%s does not end", what); } usleep(50); }
    if (w < 0) return -1;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)) { save_stats(); _exit(WEXITSTATUS(st)); }
    return st;
}
static void start(Rng &r)
{
    string pidpath = r.chance(3, 4) ? opt.dir + "/daemon.pid" : "";
    if (!pidpath.empty()) unlink(pidpath.c_str());
    int state = pidpath.empty() ? 0 : (int) r.below(4);       // 0,1: no file, 2: owned, 3: empty
    string old = state == 2 ? "12345\n" : ""; if (state >= 2) write_file(pidpath, old);
    bool daemon = r.chance(2, 3), stop = r.chance(1, 2), only_fork = daemon && pidpath.empty() && r.chance(1, 3);
    unsigned mask = (unsigned) r.below(01000); int closed = r.chance(1, 3) ? (int) r.below(8) : 0; if (state == 2) closed &= 3; /* the refusal is logged there */ bool tofile = r.chance(1, 2);
    long fault = r.chance(1, 4) ? 1 + (long) r.below(6) : 0;
    memset(rep, 0, sizeof *rep);
    string err = opt.dir + "/err"; struct stat errst; unlink(err.c_str()); write_file(err, ""); stat(err.c_str(), &errst);
    struct { pid_t pid, sid; int fds; } *first = (decltype(first)) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(0);
    pid_t a = fork(); HCHECK(a >= 0, "fork");
    if (!a)
    {
        for (int fd = 3; fd < 128; ++fd) close(fd);
        int e = open(err.c_str(), O_WRONLY | O_APPEND); dup2(e, 2); close(e);
        int f = open(tofile ? err.c_str() : "/dev/zero", O_RDWR); dup2(f, 0); dup2(f, 1); close(f);
        for (int fd = 0; fd < 3; ++fd) if (closed >> fd & 1) close(fd);
        umask(mask);
        first->pid = getpid(); first->sid = getsid(0); first->fds = count_fds();
        coda_getopt_t o; memset(&o, 0, sizeof o); o.daemon = daemon; if (!pidpath.empty()) o.pid = pidpath.c_str();
        int rc;
        { Sys s(fault, EACCES); rc = only_fork ? coda_daemon_fork() : coda_daemon_load(&o); if (s.failed()) snprintf(rep->failedname, sizeof rep->failedname, "%s", s.failed()); }
        if (only_fork && rc == 0) coda_signal_init();
        fill(*rep, rc, pidpath, stop);
        _exit(40);
    }
    int sa = reap(a, "the original process");
    string desc = fmt("starting (daemon %d, pid file %s in state %d, descriptors closed %d, failing call %ld)", daemon, pidpath.empty() ? "none" : "given", state, closed, fault);
    bool failedcall = false;
    if (daemon)
    {
        CHECK(WIFEXITED(sa) && WEXITSTATUS(sa) == 0, "original", "%s: the original process ends with status %x", desc.c_str(), sa);
        // the new process is handed to us
        int st; pid_t b; double t0 = now();
        while ((b = waitpid(-1, &st, WNOHANG)) == 0) { if (now() - t0 > 20) { pid_t v = rep->pid; if (v) kill(v, SIGKILL); violation("hang", "%s: the new process does not end", desc.c_str()); } usleep(50); }
        CHECK(b > 0, "vanished", "%s: there is no new process", desc.c_str());
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)) { save_stats(); _exit(WEXITSTATUS(st)); }
        CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 40 && rep->filled, "died", "%s: the new process dies with status %x", desc.c_str(), st);
        CHECK(rep->pid == b && b != a, "process", "%s: the program goes on in process %d, the new one is %d", desc.c_str(), rep->pid, b);
        CHECK(waitpid(-1, &st, WNOHANG) < 0 && errno == ECHILD, "extra", "%s: more than one process remains", desc.c_str());
    }
    else
    {
        CHECK(WIFEXITED(sa) && WEXITSTATUS(sa) == 40 && rep->filled, "died", "%s: the process dies with status %x", desc.c_str(), sa);
        CHECK(rep->pid == a && rep->sid == first->sid, "process", "%s: the program went on in another process or session", desc.c_str());
        CHECK(waitpid(-1, 0, WNOHANG) < 0 && errno == ECHILD, "extra", "%s: another process remains", desc.c_str());
    }
    failedcall = rep->failedname[0] != 0; bool late = !strcmp(rep->failedname, "close") || !strcmp(rep->failedname, "flock");
    if (state == 2) CHECK(rep->rc == -1, "owned", "%s returns %d although the pid file is owned", desc.c_str(), rep->rc);
    else if (failedcall) { CHECK(rep->rc == -1 || late, "unreported", "%s returns %d although %s failed", desc.c_str(), rep->rc, rep->failedname); ev("starts with a failing call"); }
    else CHECK(rep->rc == 0, "refused", "%s returns %d", desc.c_str(), rep->rc);
    if (rep->rc == 0)
    {
        if (daemon)
        {
            CHECK(rep->sid == rep->pid && rep->pgid == rep->pid && rep->sid != first->sid, "session", "%s: the new process %d is in session %d, group %d", desc.c_str(), rep->pid, rep->sid, rep->pgid);
            CHECK(!rep->tty, "session", "%s: the new process has a controlling terminal", desc.c_str());
            CHECK(rep->mask == 0, "umask", "%s: the file-mode mask is %o", desc.c_str(), rep->mask);
            CHECK(rep->null0 && rep->rd0, "stdin", "%s: standard input is not the null device", desc.c_str());
            CHECK(rep->null1 && rep->wr1, "stdout", "%s: standard output is not the null device", desc.c_str());
            if (!(closed & 4)) CHECK(rep->has2 && rep->d2 == errst.st_dev && rep->i2 == errst.st_ino, "stderr", "%s: standard error is not kept", desc.c_str());
            int want = first->fds + (closed & 1) + (closed >> 1 & 1);
            CHECK(rep->fds == want || ((closed & 4) && rep->fds == want + 1), "fd-leak", "%s: %d descriptors are open, expected %d", desc.c_str(), rep->fds, want);
            ev("daemons started");
        }
        else { CHECK(rep->mask == mask, "umask", "%s: the mask changed from %o to %o", desc.c_str(), mask, rep->mask); CHECK(rep->fds == first->fds, "fd-leak", "%s: %d descriptors are open, expected %d", desc.c_str(), rep->fds, first->fds); ev("programs started in the foreground"); }
        static const int wf[] = { 1, 2, 4, 8, 0 };
        for (int k = 0; k < 5; ++k) CHECK(rep->flags[k] == wf[k], "signals", "%s: signal number %d raises flags %x, expected %x", desc.c_str(), k, rep->flags[k], wf[k]);
        if (!pidpath.empty()) CHECK(string(rep->pidfile) == fmt("%d\n", rep->pid), "pidfile", "%s: the pid file holds %s, the process is %d", desc.c_str(), S(string(rep->pidfile)), rep->pid);
        if (stop)
        {
            CHECK(rep->stop_rc == 0 && !rep->there_after, "stop", "%s: stopping returns %d and the pid file is %s", desc.c_str(), rep->stop_rc, rep->there_after ? "still there" : "gone");
            ev("programs stopped");
        }
    }
    else if (state == 2) { CHECK(read_file(pidpath) == old, "owned", "%s changes the owned pid file to %s", desc.c_str(), S(read_file(pidpath))); ev("starts refused for an owned pid file"); }
    if (!pidpath.empty() && rep->rc == 0)
    {
        struct stat s; bool there = !stat(pidpath.c_str(), &s); CHECK(there == !stop, "pidfile", "%s: after the end the pid file is %s", desc.c_str(), there ? "there" : "gone");
        // a second stop has nothing to remove
        coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = pidpath.c_str();
        CHECK(coda_daemon_stop(&o) == (there ? 0 : -1) && stat(pidpath.c_str(), &s) < 0, "stop", "stopping with the pid file %s", there ? "there" : "gone");
    }
    munmap(first, 4096);
    evaluated(1); distinct(mix(mix((uint64_t) daemon * 8 + (uint64_t) state * 16 + stop, mask), mix((uint64_t) closed, fault ? hash(string(rep->failedname)) : 0)));
    if (want_sample()) sample("%s -> %d", desc.c_str(), rep->rc);
}
void vp_custom()
{
    if (__sanitizer_set_report_path) __sanitizer_set_report_path((opt.out + ".san").c_str());
    HCHECK(prctl(PR_SET_CHILD_SUBREAPER, 1) == 0, "subreaper");
    rep = (Report *) mmap(0, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double end = now() + opt.num("budget", 1000);
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i) { Rng r(opt.seed * 48611 + i * 97 + opt.shard * 1000003 + (uint64_t) opt.num("seedoff", 0)); start(r); }
}
void vp_init() { unsetenv("POSIXLY_CORRECT"); }
