// C34 error objects: text against the C library's formatting, copies, concurrent construction.
#include "common.hpp"
#include <coda/error.hpp>
#include <thread>
#include <atomic>
using namespace vp;
using std::string;
extern "C" size_t c_strerror(int err, char *out, size_t n);

static string sys(int e) { char b[512]; return strerror_r(e, b, sizeof(b)); }
static string cut(string s) { s = s.c_str(); if (s.size() > CODA_ERROR_BUFSZ - 1) s.resize(CODA_ERROR_BUFSZ - 1); return s; }

static void texts(int kind, const string &a, int n, int err)
{
    string w; std::unique_ptr<coda_error> e;
    errno = err;
    switch (kind)
    {
    case 0: e.reset(new coda_error("%s", a.c_str())); w = a; break;
    case 1: e.reset(new coda_error("number %d of '%s' at %08x", n, a.c_str(), (unsigned) n)); w = fmt("number %d of '%s' at %08x", n, a.c_str(), (unsigned) n); break;
    case 2: e.reset(new coda_error("%*d|%.*s", n % 5000, n, n < 0 ? -1 : n % 5000, a.c_str())); w = fmt("%*d|%.*s", n % 5000, n, n < 0 ? -1 : n % 5000, a.c_str()); break;
    case 3: e.reset(new coda_errno(err, "can't do %s", a.c_str())); w = fmt("can't do %s (%d: %s)", a.c_str(), err, sys(err).c_str()); break;
    case 4: e.reset(new coda_errno(errno, "plain")); w = fmt("plain (%d: %s)", err, sys(err).c_str()); break;
    default: e.reset(new coda_error("100%% sure")); w = "100% sure"; break;
    }
    w = cut(w);
    CHECK(strlen(e->what()) < CODA_ERROR_BUFSZ, "unterminated", "the text has %zu bytes", strlen(e->what()));
    CHECK(w == e->what(), "text", "kind %d gives %s (%zu bytes), expected %s (%zu bytes)", kind, S(string(e->what())), strlen(e->what()), S(w), w.size());
    // copies, assignment, and travelling as an exception
    coda_error c(*e);
    CHECK(w == c.what(), "copy", "the copy says %s", c.what());
    coda_error d("other"); d = *e;
    CHECK(w == d.what(), "copy", "the assigned object says %s", d.what());
    try { throw *e; } catch (const std::exception &x) { CHECK(w == x.what(), "thrown", "the caught exception says %s", x.what()); }
    e.reset();
    CHECK(w == c.what() && w == d.what(), "copy", "a copy changed with its source");
    ev("errors built");
    if (w.size() == CODA_ERROR_BUFSZ - 1) ev("errors cut to the buffer");
    if (kind == 3 || kind == 4) ev("errors with system text");
    if (want_sample()) sample("kind %d: %s", kind, S(w));
}
static void cface(int err)
{
    Exact b((size_t) 256);
    size_t k = c_strerror(err, b.p, b.n);
    if (err >= 0 && err < 134 && err != 41 && err != 58) CHECK(string(b.p, k) == sys(err), "c-text", "the text of %d is %s, expected %s", err, b.p, sys(err).c_str());
    char buf[CODA_ERROR_BUFSZ];
    CHECK(sys(err) == coda_strerror_r(err, buf, sizeof(buf)), "system-text", "the text of %d is %s", err, buf);
    ev("system texts");
}
void vp_case(In &in)
{
    int kind = in.below(6);
    size_t n = in.chance(1, 4) ? CODA_ERROR_BUFSZ - 60 + in.below(80) : in.len(opt.phase == "rand" && in.chance(1, 20) ? 70000 : 20000);
    string a = n > 200 ? string(n, (char) ('a' + in.below(26))) + in.bytes(3, "xyz%") : in.bytes(n, "abc %sdn\xd0\xb0");
    for (auto &c : a) if (!c) c = '.';
    int num = (int) in.u32(), err = in.chance(1, 10) ? (int) in.u32() : (int) in.below(140);
    sig(kind); sig(hash(a)); sig((uint64_t) num); sig((uint64_t) err);
    texts(kind, a, num, err);
    if (in.chance(1, 10)) cface(err);
    mark();
}
uint64_t vp_exh_count(bool) { return 4300 + 200; }
void vp_exh(uint64_t i)
{
    if (i < 4300) { string a(i, 'm'); texts(0, a, 0, 2); texts(1, a, (int) i, 2); texts(3, a, 0, (int) i % 134); sig(i); mark(); return; }
    i -= 4300; cface((int) i - 3); texts(3, "x", 0, (int) i - 3); texts(4, "", 0, (int) i); sig(i + 5000); mark();
}

// threads building errors at the same time: every text is its own
void vp_custom()
{
    unsigned rounds = (unsigned) opt.cases; const int T = 6;
    std::atomic<uint64_t> built(0), known(0);
    for (unsigned r = 0; r < rounds; ++r)
    {
        std::vector<std::thread> th; std::string bad[T]; std::atomic<int> go(0);
        for (int t = 0; t < T; ++t) th.emplace_back([&, t]
        {
            ++go; while (go < T) ;
            for (int k = 0; k < 300 && bad[t].empty(); ++k)
            {
                int err = (t * 7 + k) % 130;
                char b[256]; std::string w = strerror_r(err, b, sizeof(b));
                char x[400]; snprintf(x, sizeof(x), "thread %d step %d (%d: %s)", t, k, err, w.c_str());
                coda_error e = coda_errno(err, "thread %d step %d", t, k);
                if (strcmp(e.what(), x)) bad[t] = std::string("got ") + e.what() + ", expected " + x;
                char u[256]; c_strerror(1000 + t * 1000 + k, u, sizeof(u));     // numbers without a fixed text
                const char *z = strstr(coda_errno(1000 + t * 1000 + k, "q").what(), "(");
                (void) z;
                std::string ue = coda_errno(100000 + t * 1000 + k, "q").what(), uw = std::string("q (") + std::to_string(100000 + t * 1000 + k) + ": Unknown error " + std::to_string(100000 + t * 1000 + k) + ")";
                if (ue != uw) bad[t] = "got " + ue + ", expected " + uw;
                if (c_strerror(err, u, sizeof(u)) && err != 41 && err != 58 && w != u) bad[t] = std::string("C text ") + u + ", expected " + w;
                ++built;
            }
        });
        for (auto &x : th) x.join();
        for (int t = 0; t < T; ++t) CHECK(bad[t].empty(), "concurrent", "thread %d: %s", t, bad[t].c_str());
        evaluated(T);
        distinct(r);
    }
    ev("errors built concurrently", built);
    sample("%u rounds of %d threads", rounds, T);
}
void vp_init() { }
