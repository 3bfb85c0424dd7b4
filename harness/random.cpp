// C32 random strings: length, membership, balance; sequences of different processes; failing random device.
#include "common.hpp"
#include <coda/string.hpp>
#include <coda/random.h>
using namespace vp;
using std::string;

// the random device can be made to fail
static int fail_at = -1, calls;
static bool fail() { return fail_at >= 0 && calls++ == fail_at; }
extern "C" {
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t);
int __wrap_open(const char *p, int f, ...)
{
    va_list ap; va_start(ap, f); int m = f & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
    if (fail()) { errno = EMFILE; return -1; }
    return __real_open(p, f, m);
}
ssize_t __wrap_read(int fd, void *p, size_t n) { if (fail()) { errno = EIO; return -1; } return __real_read(fd, p, n); }
}

static string gen(size_t n, const string &alpha, size_t an)
{
    Exact a(alpha.substr(0, an));
    return coda_random_string(n, a.p, an);
}
static void members(const string &s, size_t n, const string &alpha)
{
    CHECK(s.size() == n, "length", "asked for %zu characters, got %zu", n, s.size());
    size_t bad = s.find_first_not_of(alpha);
    CHECK(bad == string::npos, "alphabet", "character %s is not in the alphabet %s", S(s.substr(bad, 1)), S(alpha));
    ev("strings generated"); ev("characters generated", n);
}
static string alphabet(In &in)
{
    switch (in.below(5))
    {
    case 0: return "0123456789abcdef";
    case 1: return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    case 2: { string s; for (unsigned i = 0; i < 256; ++i) s += (char) i; return s; }
    case 3: return in.bytes(1 + in.below(40));
    default: return string("ab\0c", 4);
    }
}
void vp_case(In &in)
{
    string al = alphabet(in);
    size_t an = 1 + in.below((unsigned) al.size());
    size_t n = in.len(opt.phase == "rand" && in.chance(1, 100) ? 70000 : 3000);
    int fds = open_fds();
    string a = gen(n, al, an), b = gen(n, al, an);
    members(a, n, al.substr(0, an)); members(b, n, al.substr(0, an));
    std::set<char> d(al.begin(), al.begin() + (long) an);
    if (d.size() > 1 && n * std::min(3.0, __builtin_log2((double) d.size())) > 80) CHECK(a != b, "repeats", "two successive strings of %zu characters are equal", n);
    CHECK(open_fds() == fds, "fd-leak", "generating strings leaks a descriptor");
    sig(hash(al)); sig(an); sig(n); if (n) mark();
    if (want_sample() && n) sample("%zu of %s: %s", n, S(al.substr(0, an)), S(a));
    if (in.chance(1, 400))
    {
        // balance over the given characters, distinct ones
        string u = in.chance(1, 2) ? "0123456789abcdef" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
        size_t un = 1 + in.below((unsigned) u.size());
        size_t N = 200000; std::map<char, size_t> c, pairs;
        string s;
        while (s.size() < N) s += gen(1 + in.below(2000), u, un);
        for (char x : s) ++c[x];
        double e = (double) s.size() / (double) un, lim = 7 * __builtin_sqrt(e) + 5;
        for (size_t i = 0; i < un; ++i) CHECK(c[u[i]] > e - lim && c[u[i]] < e + lim, "balance", "character %c occurs %zu times among %zu, expected about %.0f", u[i], c[u[i]], s.size(), e);
        // and of neighbours
        if (un > 1 && un <= 16)
        {
            std::map<std::pair<char, char>, size_t> q;
            for (size_t i = 0; i + 1 < s.size(); ++i) ++q[std::make_pair(s[i], s[i + 1])];
            double e2 = (double) s.size() / (double) (un * un), lim2 = 8 * __builtin_sqrt(e2) + 5;
            for (size_t i = 0; i < un; ++i) for (size_t j = 0; j < un; ++j)
            { size_t k = q[std::make_pair(u[i], u[j])]; CHECK(k > e2 - lim2 && k < e2 + lim2, "balance-pairs", "the pair %c%c occurs %zu times, expected about %.0f", u[i], u[j], k, e2); }
        }
        ev("balance checks");
    }
}
uint64_t vp_exh_count(bool) { return 200 * 40; }
void vp_exh(uint64_t i)
{
    size_t n = i % 200, an = 1 + i / 200;
    string al; for (size_t k = 0; k < 64; ++k) al += (char) (128 + k);
    string s = gen(n, al, an);
    members(s, n, al.substr(0, an));
    sig(i); if (n) mark();
}

// separate processes: each asks for its first string after it was created
void vp_custom()
{
    unsigned rounds = (unsigned) opt.cases, procs = 24;
    for (unsigned r = 0; r < rounds; ++r)
    {
        std::set<string> seen;
        std::vector<int> fds; std::vector<pid_t> pids;
        for (unsigned k = 0; k < procs; ++k)
        {
            int p[2]; HCHECK(!pipe(p), "pipe");
            pid_t pid = fork();
            if (!pid)
            {
                string out;
                int before = open_fds();
                if (k % 4 == 3)
                {
                    // the device fails first: strings still have their form, and nothing leaks
                    for (int f = 0; f < 2; ++f) { fail_at = f; calls = 0; string s = gen(20, "abc", 3); fail_at = -1; if (s.size() != 20 || s.find_first_not_of("abc") != string::npos) out = "!form"; }
                    for (int t = 0; t < 20; ++t) { fail_at = 1; calls = 0; coda_random_init(); fail_at = -1; }
                }
                if (open_fds() != before) out = "!leak";
                if (out.empty()) out = gen(40, "0123456789abcdef", 16);
                for (int t = 0; t < 50; ++t) gen(5, "xy", 2);
                if (open_fds() != before) out = "!leak";
                if (write(p[1], out.data(), out.size()) < 0) _exit(1);
                _exit(0);
            }
            close(p[1]); fds.push_back(p[0]); pids.push_back(pid);
        }
        for (unsigned k = 0; k < procs; ++k)
        {
            char b[64]; ssize_t n = read(fds[k], b, sizeof(b)); close(fds[k]); int st; waitpid(pids[k], &st, 0);
            string s(b, n > 0 ? (size_t) n : 0);
            CHECK(!s.empty() && WIFEXITED(st) && !WEXITSTATUS(st), "process", "a generating process ended with status %x", st);
            CHECK(s != "!leak", "fd-leak", "generating strings with a failing random device leaks a descriptor");
            CHECK(s != "!form", "length", "with a failing random device the string has the wrong form");
            CHECK(seen.insert(s).second, "same-sequence", "two processes generated the same first string %s", S(s));
            distinct(hash(s));
        }
        evaluated(procs); ev("processes compared", procs);
        if (want_sample()) sample("%u processes started with %s, ...", procs, seen.begin()->c_str());
    }
}
void vp_init() { }
