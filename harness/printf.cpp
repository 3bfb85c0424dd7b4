// C14: formatted string building against glibc's own asprintf.
#include "common.hpp"
#include <coda/string.hpp>
#include <wchar.h>
using std::string;
using namespace vp;

// one formatting request; every API is called with the same arguments
struct Req
{
    int kind; string a, b; long long n; double d; int w; char c;
};

#define WITH(call) \
    switch (q.kind) { \
    case 0: call("%s", q.a.c_str()); break; \
    case 1: call("%s-%s", q.a.c_str(), q.b.c_str()); break; \
    case 2: call("%d", (int) q.n); break; \
    case 3: call("%lld|%llx|%s", q.n, (unsigned long long) q.n, q.a.c_str()); break; \
    case 4: call("%*d%s", q.w, (int) q.n, q.b.c_str()); break; \
    case 5: call("%.*s", q.w, q.a.c_str()); break; \
    case 6: call("%f %g", q.d, q.d); break; \
    case 7: call("%c%s%c", q.c, q.a.c_str(), 'z'); break; \
    case 8: call("%%%s%%", q.a.c_str()); break; \
    case 9: call("plain text"); break; \
    default: call("%s", ""); break; }

static string ref(const Req &q)
{
    char *p = 0; int n = -1;
#define REF(...) n = asprintf(&p, __VA_ARGS__)
    WITH(REF)
    HCHECK(n >= 0, "asprintf failed");
    string r(p, n); free(p);
    return r;
}

static size_t pick_len(In &in)
{
    static const size_t edges[] = { 0, 1, 255, 256, 1023, 1024, 4095, 4096, 32765, 32766, 32767, 32768, 32769, 65535, 65536, 100000, 300000 };
    if (in.chance(1, 3)) { size_t e = edges[in.below(17)]; return e + in.below(3) - (e ? 1 : 0); }
    return in.len(in.chance(1, 20) ? 200000 : 100);
}
static size_t pick_num(In &in, size_t full)
{
    switch (in.below(8))
    {
    case 0: return full;
    case 1: return full + 1;
    case 2: return full ? full - 1 : 0;
    case 3: return 0;
    case 4: return 32766 + in.below(4);
    case 5: return in.chance(1, 2) ? (size_t) -1 : in.chance(1, 2) ? (size_t) 0x7fffffff + in.below(3) : (size_t) in.u64();
    default: return in.below(full + 50 > 0xffffffu ? 0xffffff : full + 50);
    }
}

static bool huge_ok = true;

// a wide character that no byte sequence stands for: printf returns -1
static void unformattable(In &in)
{
    string pre = in.bytes(pick_len(in), "abc"), out0 = in.bytes(in.len(200), "0123456789"), g = out0; unsigned api = in.below(4);
    size_t num = pick_num(in, pre.size() + 1), pos = in.below((uint32_t) out0.size() + 1); wint_t bad = in.chance(1, 2) ? 0x110000 + in.below(1000) : 0xd800 + in.below(100); int r = -1;
    char *p = 0; HCHECK(asprintf(&p, "%s%lc", pre.c_str(), bad) == -1, "the wide character can be formatted");
    sig(api); sig(pre.size()); sig(num); sig(pos); mark();
    try
    {
        if (api == 0) { g = coda_strprintf("%s%lc", pre.c_str(), bad); out0.clear(); }
        else if (api == 1) r = coda_strappend(g, "%s%lc", pre.c_str(), bad);
        else if (api == 2) r = coda_strnappend(g, num, "%s%lc", pre.c_str(), bad);
        else r = coda_strnprintf(g, pos, num, "%s%lc", pre.c_str(), bad);
    }
    catch (const std::exception &e) { violation("unformattable", "function %u with a text that cannot be formatted, limit %zu: throws %s", api, num, e.what()); }
    CHECK(r == -1, "unformattable", "function %u with a text that cannot be formatted, limit %zu: returns %d", api, num, r);
    CHECK(g == out0, "unformattable", "function %u with a text that cannot be formatted, limit %zu: leaves %zu characters, expected %zu", api, num, g.size(), out0.size());
    ev("texts that cannot be formatted");
}

void vp_case(In &in)
{
    if (in.chance(1, 24)) { unformattable(in); return; }
    Req q;
    q.kind = in.below(11);
    if (in.chance(1, 3)) q.kind = 0;
    size_t la = pick_len(in);
    static const char al[] = "abcdefghijklmnopqrstuvwxyz%\\d 0123456789\xff";
    q.a = in.bytes(la, al, sizeof al - 1);
    q.b = in.bytes(in.len(50), al, sizeof al - 1);
    q.n = (long long) in.u64();
    q.d = (double) q.n / 1000.0;
    q.w = in.chance(1, 20) ? 32760 + in.below(20) : in.below(60);
    q.c = in.chance(1, 5) ? 0 : (char) in.u8();
    string want = ref(q);
    string out0 = in.bytes(in.len(200), "0123456789");
    unsigned api = in.below(6);
    size_t num = pick_num(in, want.size());
    size_t pos = in.chance(1, 4) ? out0.size() + in.below(4) : in.below(out0.size() + 1);
    sig(q.kind); sig(hash(want)); sig(api); sig(num); sig(pos); mark();
    if (want_sample()) sample("kind %d, %zu characters, api %u, limit %zu, position %zu of %zu", q.kind, want.size(), api, num, pos, out0.size());
    string cut = want.substr(0, num);
    switch (api)
    {
    case 0:
    {
        string g;
#define SPR(...) g = coda_strprintf(__VA_ARGS__)
        WITH(SPR)
        CHECK(g == want, "strprintf", "strprintf kind %d gave %zu characters %s, expected %zu %s", q.kind, g.size(), S(g), want.size(), S(want));
        ev("strprintf compared");
        break;
    }
    case 1:
    {
        string g = out0; int r = -2;
#define APP(...) r = coda_strappend(g, __VA_ARGS__)
        WITH(APP)
        CHECK(g == out0 + want, "strappend", "strappend kind %d onto %zu characters gave %zu, expected %zu", q.kind, out0.size(), g.size(), out0.size() + want.size());
        CHECK(r == (int) want.size(), "strappend-count", "strappend returned %d, added %zu", r, want.size());
        ev("strappend compared");
        break;
    }
    case 2:
    {
        string g = out0; int r = -2;
#define NAPP(...) r = coda_strnappend(g, num, __VA_ARGS__)
        WITH(NAPP)
        CHECK(g == out0 + cut, "strnappend", "strnappend kind %d, limit %zu, onto %zu characters gave %zu, expected %zu", q.kind, num, out0.size(), g.size(), out0.size() + cut.size());
        CHECK(r == (int) cut.size(), "strnappend-count", "strnappend returned %d, added %zu", r, cut.size());
        ev(num < want.size() ? "strnappend cut" : "strnappend whole");
        break;
    }
    case 3:
    {
        string g = out0; int r = -2;
#define NPR(...) r = coda_strnprintf(g, pos, num, __VA_ARGS__)
        WITH(NPR)
        if (pos > out0.size())
        {
            CHECK(r == -1 && g == out0, "strnprintf-beyond", "strnprintf at %zu of %zu returned %d", pos, out0.size(), r);
            ev("strnprintf beyond the end refused");
            break;
        }
        string w = out0; w.insert(pos, cut);
        CHECK(g == w, "strnprintf", "strnprintf kind %d at %zu, limit %zu: %s, expected %s", q.kind, pos, num, S(g), S(w));
        CHECK(r == (int) cut.size(), "strnprintf-count", "strnprintf returned %d, inserted %zu", r, cut.size());
        ev(num < want.size() ? "strnprintf cut" : "strnprintf whole");
        break;
    }
    default:
    {
        // arguments refer to the target itself
        string g = in.bytes(in.chance(1, 3) ? la : in.len(100), "abcxyz");
        string t = g;
        unsigned k = in.below(4);
        int r = -2;
        if (pos > t.size()) pos = in.below(t.size() + 1);
        string w = t + "+" + t;
        string lim = w.substr(0, num);
        if (k == 0) { g = coda_strprintf("%s+%s", g.c_str(), g.c_str()); t = w; }
        else if (k == 1) { r = coda_strappend(g, "%s+%s", g.c_str(), g.c_str()); t += w; CHECK(r == (int) w.size(), "alias-count", "strappend returned %d, added %zu", r, w.size()); }
        else if (k == 2) { r = coda_strnappend(g, num, "%s+%s", g.c_str(), g.c_str()); t += lim; CHECK(r == (int) lim.size(), "alias-count", "strnappend returned %d, added %zu", r, lim.size()); }
        else { r = coda_strnprintf(g, pos, num, "%s+%s", g.c_str(), g.c_str()); t.insert(pos, lim); CHECK(r == (int) lim.size(), "alias-count", "strnprintf returned %d, added %zu", r, lim.size()); }
        CHECK(g == t, "alias", "form %u formatting its own target gave %s, expected %s", k, S(g), S(t));
        ev("self-referring argument compared");
    }
    }
}

// every length around the buffer sizes for every form with every relation of limit to length
static const size_t LEN[] = { 0, 1, 2, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384,
                              32760, 32761, 32762, 32763, 32764, 32765, 32766, 32767, 32768, 32769, 32770, 40000, 65534, 65535, 65536, 65537,
                              131072, 1000000, 20000000 };
uint64_t vp_exh_count(bool) { return sizeof LEN / sizeof *LEN * 24; }
void vp_exh(uint64_t i)
{
    size_t n = LEN[i / 24], k = i % 24, form = k / 6;
    if (n >= 20000000 && k % 6 > 1) return;
    size_t num = k % 6 == 0 ? n : k % 6 == 1 ? n + 1 : k % 6 == 2 ? (n ? n - 1 : 0) : k % 6 == 3 ? (size_t) -1 : k % 6 == 4 ? 32767 : 32768;
    string a(n, 'q');
    for (size_t j = 0; j < n; ++j) a[j] = 'a' + j * 7 % 26;
    string g = "<>", w = "<>", lim = a.substr(0, num);
    int r = 0, x = 0;
    if (form == 0) { g = coda_strprintf("%s", a.c_str()); w = a; }
    else if (form == 1) { r = coda_strappend(g, "%s", a.c_str()); w += a; x = (int) n; }
    else if (form == 2) { r = coda_strnappend(g, num, "%s", a.c_str()); w += lim; x = (int) lim.size(); }
    else { r = coda_strnprintf(g, 1, num, "%s", a.c_str()); w.insert(1, lim); x = (int) lim.size(); }
    CHECK(g == w && r == x, "length", "form %zu with %zu characters and limit %zu gave %zu characters, returned %d", form, n, num, g.size(), r);
    sig(i); mark();
    ev("boundary lengths compared");
}
