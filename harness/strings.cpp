// C12: searches and spans of coda/string.h against their definitions.
#include "common.hpp"
#include "longtext.hpp"
#include <coda/string.h>
using std::string;
using namespace vp;

static unsigned char lo(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool eq(char a, char b, bool x) { return x ? lo(a) == lo(b) : a == b; }
static bool inset(char c, const string &n, bool x) { for (char d : n) if (eq(c, d, x)) return true; return false; }

static long r_chr(const string &s, char c, bool x) { for (size_t i = 0; i < s.size(); ++i) if (eq(s[i], c, x)) return i; return -1; }
static long r_rchr(const string &s, char c, bool x) { for (size_t i = s.size(); i-- > 0;) if (eq(s[i], c, x)) return i; return -1; }
static long r_str(const string &s, const string &n, bool x)
{
    for (size_t i = 0; i + n.size() <= s.size(); ++i)
    {
        size_t k = 0;
        while (k < n.size() && eq(s[i + k], n[k], x)) ++k;
        if (k == n.size()) return i;
    }
    return -1;
}
static size_t r_spn(const string &s, const string &n, bool x, bool in) { size_t i = 0; while (i < s.size() && inset(s[i], n, x) == in) ++i; return i; }
static size_t r_rspn(const string &s, const string &n, bool x, bool in) { size_t i = 0; while (i < s.size() && inset(s[s.size() - 1 - i], n, x) == in) ++i; return i; }

static long off(const char *r, const char *base) { return r ? r - base : -1; }
static string first_nul(const string &s) { return s.substr(0, s.find('\0')); }

#define CMP(name, got, want) do { long g_ = (long) (got), w_ = (long) (want); \
    CHECK(g_ == w_, name, name "(%s, %s) gave %ld, expected %ld", S(s), S(n), g_, w_); ev(name); } while (0)

static void check_chr(const string &s, char c)
{
    Exact b(s); string n(1, c);
    long w;
    CMP("strnchr", off(coda_strnchr(b.p, c, b.n), b.p), r_chr(s, c, false));
    CMP("strxchr", off(coda_strxchr(b.p, c, b.n), b.p), r_chr(s, c, true));
    CMP("revnchr", off(coda_revnchr(b.p, c, b.n), b.p), r_rchr(s, c, false));
    CMP("revxchr", off(coda_revxchr(b.p, c, b.n), b.p), r_rchr(s, c, true));
    w = r_chr(s, c, false); CMP("strnchp", coda_strnchp(b.p, c, b.n), w < 0 ? (long) s.size() : w);
    w = r_chr(s, c, true);  CMP("strxchp", coda_strxchp(b.p, c, b.n), w < 0 ? (long) s.size() : w);
}

static void check_str(const string &s, const string &needle)
{
    string n = first_nul(needle);
    Exact b(s); ExactZ nz(n);
    if (!(s.empty() && n.empty()))      // which of "not found" and "found at 0" is open there
    {
        CMP("strnstr", off(coda_strnstr(b.p, nz.p, b.n), b.p), r_str(s, n, false));
        CMP("strxstr", off(coda_strxstr(b.p, nz.p, b.n), b.p), r_str(s, n, true));
        string z = first_nul(s);
        if (!(z.empty() && n.empty()))
        {
            ExactZ bz(z);
            CMP("stristr", off(coda_stristr(bz.p, nz.p), bz.p), r_str(z, n, true));
        }
    }
}

static void check_spn(const string &s, const string &set)
{
    string n = first_nul(set);
    Exact b(s); ExactZ nz(n);
    CMP("strnspn", coda_strnspn(b.p, nz.p, b.n), r_spn(s, n, false, true));
    CMP("strxspn", coda_strxspn(b.p, nz.p, b.n), r_spn(s, n, true, true));
    CMP("revnspn", coda_revnspn(b.p, nz.p, b.n), r_rspn(s, n, false, true));
    CMP("revxspn", coda_revxspn(b.p, nz.p, b.n), r_rspn(s, n, true, true));
    CMP("strnspc", coda_strnspc(b.p, nz.p, b.n), r_spn(s, n, false, false));
    CMP("strxspc", coda_strxspc(b.p, nz.p, b.n), r_spn(s, n, true, false));
    CMP("revnspc", coda_revnspc(b.p, nz.p, b.n), r_rspn(s, n, false, false));
    CMP("revxspc", coda_revxspc(b.p, nz.p, b.n), r_rspn(s, n, true, false));
    string z = first_nul(s);
    ExactZ bz(z);
    CMP("strispn", coda_strispn(bz.p, nz.p), r_spn(z, n, true, true));
    CMP("strispc", coda_strispc(bz.p, nz.p), r_spn(z, n, true, false));
}

static void all(const string &s, const string &n, char c)
{
    sig(hash(s)); sig(hash(n)); sig((unsigned char) c);
    if (!s.empty() && !n.empty()) mark();
    if (want_sample()) sample("s=%s n=%s c=%s", S(s), S(n), S(string(1, c)));
    check_chr(s, c);
    check_str(s, n);
    check_spn(s, n);
}

void vp_case(In &in)
{
    static const char *const alphas[] = { "ab", "aAbB", "aA.\xc3\xe3", "abcXYZ019 ./?#", "az AZ@[`{" };
    string al;
    unsigned k = in.below(8);
    if (k < 5) al = alphas[k];
    if (k == 5) al = string("a\0A\xff\x80", 5);
    bool rnd = opt.phase == "rand";
    size_t max = in.chance(1, 50) ? (rnd && in.chance(1, 4) ? 70000 : 3000) : 60;
    string s = al.empty() ? in.bytes(in.len(max)) : in.bytes(in.len(max), al);
    string n = al.empty() ? in.bytes(in.len(12)) : in.bytes(in.len(12), al);
    switch (in.below(6))
    {
    case 0: // needle cut from the text
        if (!s.empty()) { size_t o = in.below(s.size()); n = s.substr(o, 1 + in.below(std::min<size_t>(s.size() - o, rnd && in.chance(1, 4) ? 70000 : 40))); if (n.size() > 255) ev("needles of more than 255 bytes"); }
        break;
    case 1: // needle runs over the end of the text
        if (!s.empty()) { n = s.substr(s.size() - 1 - in.below(std::min<size_t>(s.size(), 5))) + "a"; }
        break;
    case 2: // runs of set characters at both ends
        if (!n.empty()) s = in.bytes(in.len(20), n) + s + in.bytes(in.len(20), n);
        break;
    case 3: // only set characters
        if (!n.empty()) s = in.bytes(in.len(40), n);
        break;
    }
    if (in.chance(1, 4)) for (auto &c : n) c = in.chance(1, 2) ? toupper((unsigned char) c) : tolower((unsigned char) c);
    char c = !s.empty() && in.chance(1, 2) ? s[in.below(s.size())] : (char) in.u8();
    if (in.chance(1, 4)) c ^= 0x20;
    all(s, n, c);
}

// all texts of up to 6 (thorough 8) characters over {a, A, b, NUL, 0xC3} with all needles of up to 2 (3),
// and every pair of bytes for the character searches
static const char AL[] = { 'a', 'A', 'b', 0, (char) 0xc3 };
static uint64_t cnt(unsigned n) { uint64_t s = 0, e = 1; for (unsigned i = 0; i <= n; ++i) { s += e; e *= 5; } return s; }
static string nth(uint64_t i) { size_t n = 0; uint64_t e = 1; while (i >= e) { i -= e; e *= 5; ++n; } string s; while (n--) { s += AL[i % 5]; i /= 5; } return s; }
uint64_t vp_exh_count(bool th) { return 65536 + cnt(th ? 7 : 5) * cnt(th ? 3 : 2) + 1; }
void vp_exh(uint64_t i)
{
    if (i < 65536) { all(string(1, char(i >> 8)), string(1, char(i)), (char) i); return; }
    i -= 65536;
    uint64_t nn = cnt(opt.thorough ? 3 : 2);
    if (i < cnt(opt.thorough ? 7 : 5) * nn) { all(nth(i / nn), nth(i % nn), AL[i % 5]); return; }
    // nothing to search in, nothing to search for
    CHECK(!coda_strnstr(0, "a", 0) && !coda_strxstr(0, "a", 0) && !coda_stristr(0, "a"), "null-text", "a search in no text found something");
    const char *t = "xy";
    CHECK(coda_strnstr(t, 0, 2) == t && coda_strxstr(t, 0, 2) == t && coda_stristr(t, 0) == t, "null-needle", "a search for nothing does not match at the start");
}

// ---- texts whose length does not fit in 32 bits: 'a' throughout but for a 'b' near one of the ends ---------------------------
void vp_custom()
{
    const size_t N = ((size_t) 1 << 32) + 2;
    struct { const char *name; bool back, term; size_t (*f)(const char *p, size_t n); } t[] = {
#define P(x) { #x, false, false, [](const char *p, size_t n) { return (size_t) off(coda_##x(p, 'b', n), p); } }
#define Q(x) { #x, true, false, [](const char *p, size_t n) { return (size_t) off(coda_##x(p, 'b', n), p); } }
        P(strnchr), P(strxchr), Q(revnchr), Q(revxchr),
        { "strnchp", false, false, [](const char *p, size_t n) { return coda_strnchp(p, 'b', n); } },
        { "strxchp", false, false, [](const char *p, size_t n) { return coda_strxchp(p, 'B', n); } },
        { "strnstr", false, false, [](const char *p, size_t n) { return (size_t) off(coda_strnstr(p, "b", n), p); } },
        { "strxstr", false, false, [](const char *p, size_t n) { return (size_t) off(coda_strxstr(p, "B", n), p); } },
        { "stristr", false, true, [](const char *p, size_t) { return (size_t) off(coda_stristr(p, "B"), p); } },
#define R(x, back, set) { #x, back, false, [](const char *p, size_t n) { return coda_##x(p, set, n); } }
        R(strnspn, false, "a"), R(strxspn, false, "A"), R(revnspn, true, "a"), R(revxspn, true, "A"),
        R(strnspc, false, "b"), R(strxspc, false, "B"), R(revnspc, true, "b"), R(revxspc, true, "B"),
        { "strispn", false, true, [](const char *p, size_t) { return coda_strispn(p, "A"); } },
        { "strispc", false, true, [](const char *p, size_t) { return coda_strispc(p, "B"); } } };
    const size_t n = sizeof t / sizeof *t;
    Long whole("", "a", N, "b"), whole_back("b", "a", N, ""), half("", "a", N / 2 + 1, "b"), half_back("b", "a", N / 2 + 1, ""), near("aaaaab", "a", N, ""), near_back("", "a", N, "ba");
    for (size_t k = opt.shard; k < 2 * n; k += opt.shards)
    {
        auto &x = t[k % n]; bool early = k >= n, span = x.name[3] && strstr(x.name, "sp");
        bool all = opt.thorough || strstr(x.name, "chp");     // those that count
        const Long &l = early ? x.back ? near_back : near : all ? x.back ? whole_back : whole : x.back ? half_back : half;
        // where the 'b' is; backward spans count the characters behind it
        size_t pos = early ? x.back ? l.n - 2 : 5 : x.back ? 0 : l.n - 1, want = x.back && span ? l.n - 1 - pos : pos, got = x.f(l.p, l.n);
        CHECK(got == want, x.name, "%s over a text of %zu bytes whose only 'b' is at %zu gives %zu, expected %zu", x.name, l.n, pos, got, want);
        evaluated(1); distinct(k); ev("searches in texts of more than 2 or 4 GiB");
    }
}
