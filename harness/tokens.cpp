// C13: splitting and number parsing against independent definitions.
#include "common.hpp"
#include "longtext.hpp"
#include <coda/string.h>
#include <coda/string.hpp>
#include <coda/easy_parsing.hpp>
using std::string; using std::vector; using std::set;
using namespace vp;

static vector<string> ref_split(const string &s, const string &delims, bool ignore)
{
    vector<string> r; string cur;
    for (char c : s)
    {
        if (delims.find(c) != string::npos) { if (!cur.empty() || !ignore) r.push_back(cur); cur.clear(); }
        else cur += c;
    }
    if (!cur.empty() || !ignore) r.push_back(cur);
    return r;
}
static string showv(const vector<string> &v) { string r = "["; for (auto &x : v) r += show(x, 40) + " "; return r + "]"; }

static void check_split(const string &s, const string &d)
{
    ExactZ dz(d);
    for (int ig = 0; ig < 2; ++ig)
    {
        {
            Exact b(s);
            vector<string> g = coda_split_string(b.p, b.n, dz.p, ig), w = ref_split(s, d, ig);
            CHECK(g == w, "split-sized", "split(%s, %zu, %s, %d) gave %s, expected %s", S(s), s.size(), S(d), ig, showv(g).c_str(), showv(w).c_str());
            if (ig) { g = coda_split_string(b.p, b.n, dz.p); CHECK(g == w, "split-default", "split(%s) without the last argument differs", S(s)); }
        }
        {
            string z = s.substr(0, s.find('\0'));
            ExactZ b(z);
            vector<string> g = coda_split_string(b.p, dz.p, ig), w = ref_split(z, d, ig);
            CHECK(g == w, "split-terminated", "split(%s, %s, %d) gave %s, expected %s", S(z), S(d), ig, showv(g).c_str(), showv(w).c_str());
            if (ig) { g = coda_split_string(b.p, dz.p); CHECK(g == w, "split-default", "split(%s) without the last argument differs", S(z)); }
        }
        ev("splits compared");
    }
}

static void check_stringset(const string &s0, const set<string> &before)
{
    string s = s0.substr(0, s0.find('\0'));
    set<string> want = before;
    if (!s.empty()) for (auto &x : ref_split(s, ",", false)) want.insert(x);
    ExactZ b(s);
    set<string> got = before;
    coda_get_stringset(b.p, got);
    CHECK(got == want, "stringset", "stringset(%s) has %zu elements, expected %zu", S(s), got.size(), want.size());
    ev("string sets compared");
}

static void check_uint64set(const vector<string> &elems, const vector<bool> &isnum, const set<uint64_t> &before)
{
    string s; set<uint64_t> want = before;
    for (size_t i = 0; i < elems.size(); ++i)
    {
        if (i) s += ',';
        s += elems[i];
        if (isnum[i]) want.insert(strtoull(elems[i].c_str(), 0, 10));
    }
    ExactZ b(s);
    set<uint64_t> got = before;
    coda_get_uint64set(b.p, got);
    if (got != want)
    {
        string g; for (uint64_t x : got) g += fmt("%llu ", (unsigned long long) x);
        violation("uint64set", "uint64set(%s) gave {%s}, expected %zu elements", S(s), g.c_str(), want.size());
    }
    ev("number sets compared");
    sig(hash(s));
}

static void check_words(const string &s0)
{
    string s = s0.substr(0, s0.find('\0'));
    vector<string> want = ref_split(s, " \t\n\r", true), got;
    ExactZ b(s);
    const char *be = b.p, *en = 0;
    while (get_next_word(be, en))
    {
        CHECK(be >= b.p && en <= b.p + b.n && en > be, "next-word-range", "next_word(%s) gave a range outside the text", S(s));
        got.push_back(string(be, en - be));
        be = en;
        CHECK(got.size() <= s.size(), "next-word-range", "next_word(%s) does not advance", S(s));
    }
    CHECK(be == b.p + b.n && en == be, "next-word-end", "next_word(%s) does not end at the terminator", S(s));
    CHECK(got == want, "next-word", "next_word(%s) gave %s, expected %s", S(s), showv(got).c_str(), showv(want).c_str());
    ev("word sequences compared");
}

static void check_num(const string &s)
{
    Exact b(s);
    bool num = true;
    unsigned __int128 v = 0;
    bool big = false;
    for (char c : s) { if (c < '0' || c > '9') { num = false; break; } v = v * 10 + (c - '0'); if (v >> 64) big = true; if (v >> 100) v = 1; }
    if (!num) { v = 0; big = false; }
    uint64_t u = coda_atou(b.p, b.n);
    if (!big) CHECK(u == (uint64_t) v, "atou", "atou(%s) gave %llu", S(s), (unsigned long long) u);
    int64_t g = coda_atoi(b.p, b.n);
    bool neg = !s.empty() && s[0] == '-';
    if (neg)
    {
        num = true; v = 0; big = false;
        for (size_t i = 1; i < s.size(); ++i) { char c = s[i]; if (c < '0' || c > '9') { num = false; break; } v = v * 10 + (c - '0'); if (v >> 63 && v != (unsigned __int128) 1 << 63) big = true; if (v >> 100) v = 1; }
        if (!num) { v = 0; big = false; }
        if (!big) CHECK(g == (int64_t) -(uint64_t) v, "atoi", "atoi(%s) gave %lld", S(s), (long long) g);
    }
    else if (!big && !(v >> 63)) CHECK(g == (int64_t) (uint64_t) v, "atoi", "atoi(%s) gave %lld", S(s), (long long) g);
    ev("numbers compared");
}

void vp_case(In &in)
{
    size_t max = in.chance(1, 60) ? opt.phase == "rand" && in.chance(1, 4) ? 70000 : 8000 : 60;
    switch (in.below(5))
    {
    case 0: case 1:
    {
        static const char *const ds[] = { ",", ", ", ";|", "ab", "", "\xff\x80", ",\n\t" };
        string d = in.chance(1, 6) ? in.bytes(in.below(4)) : string(in.pick(ds));
        d = d.substr(0, d.find('\0'));
        string s = in.chance(1, 4) ? in.bytes(in.len(max)) : in.bytes(in.len(max), in.chance(1, 3) ? string("a,\0; b", 6) : d + "xyab, ");
        sig(hash(s)); sig(hash(d)); if (!s.empty()) mark();
        if (want_sample()) sample("split %s by %s", S(s), S(d));
        check_split(s, d);
        break;
    }
    case 2:
    {
        string s = in.chance(1, 3) ? in.bytes(in.len(max)) : in.bytes(in.len(max), "ab,,c \n");
        if (opt.phase != "fuzz" && in.chance(1, 200))
        {
            // an element or word of a length where narrow counts wrap
            static const unsigned W[] = { 127, 255, 511, 1023, 4095, 32767, 65535, 65535, 131071 };
            string w(W[in.below(9)] + in.below(4), in.chance(1, 2) ? 'w' : 'b'); s.insert(in.below(s.size() + 1), w); ev("elements of up to 131 072 bytes");
            check_split(s, ","); check_words(s);
        }
        set<string> before; if (in.chance(1, 2)) before.insert("kept"); if (in.chance(1, 3)) before.insert("a");
        sig(hash(s)); if (!s.empty()) mark();
        check_stringset(s, before);
        check_words(in.chance(1, 2) ? s : in.bytes(in.len(max), "ab \t\n\r\v\f."));
        break;
    }
    case 3:
    {
        vector<string> e; vector<bool> num;
        unsigned n = in.below(in.chance(1, 30) ? 300 : 9);
        if (!n) n = 1;
        for (unsigned i = 0; i < n; ++i)
        {
            static const char *const junk[] = { "", "x", "abc", " ", "x1", "\t", "none", ".5", "  y", "#", "/", ":" };
            if (in.chance(1, 4)) { e.push_back(in.pick(junk)); num.push_back(false); continue; }
            string d;
            switch (in.below(5))
            {
            case 0: d = "18446744073709551615"; break;
            case 1: d = fmt("%llu", (unsigned long long) in.u64()); break;
            case 2: d = fmt("%u", in.below(10)); break;
            case 3: d = string(in.below(3), '0') + fmt("%u", in.u32()); break;
            default: d = fmt("%llu", 1ull << in.below(64)); break;
            }
            if (in.chance(1, 6)) d = " " + d;
            if (in.chance(1, 10)) d += " ";
            e.push_back(d); num.push_back(true);
        }
        set<uint64_t> before; if (in.chance(1, 2)) before.insert(in.below(20));
        mark();
        check_uint64set(e, num, before);
        if (want_sample()) { string s; for (auto &x : e) s += x + ","; sample("number set %s", S(s)); }
        break;
    }
    default:
    {
        string s;
        switch (in.below(4))
        {
        case 0: s = fmt("%llu", (unsigned long long) in.u64()); break;
        case 1: s = fmt("%lld", (long long) in.u64()); break;
        case 2: s = in.bytes(in.below(22), "0123456789-"); break;
        default: s = in.bytes(in.below(6)); break;
        }
        if (in.chance(1, 4) && !s.empty()) s[in.below(s.size())] = "/:-+ .\0x\x80\xb0"[in.below(10)];
        sig(hash(s, 9)); if (!s.empty()) mark();
        check_num(s);
        if (want_sample()) sample("number %s", S(s));
    }
    }
}

static const char AL[] = { ',', 'a', ' ', 0, '7', '-' };
static string nth(uint64_t i) { size_t n = 0; uint64_t e = 1; while (i >= e) { i -= e; e *= 6; ++n; } string s; while (n--) { s += AL[i % 6]; i /= 6; } return s; }
uint64_t vp_exh_count(bool th) { return 256 * 3 + (th ? 335923 : 9331) + 1; }
void vp_exh(uint64_t i)
{
    if (i < 256 * 3)
    {
        string s = i < 256 ? string(1, (char) i) : i < 512 ? string("-") + char(i) : string("12") + char(i) + "3";
        sig(hash(s, 9)); mark();
        check_num(s);
        return;
    }
    i -= 256 * 3;
    if (i == (uint64_t) (opt.thorough ? 335923 : 9331))
    {
        set<string> a; a.insert("k"); coda_get_stringset(0, a); CHECK(a.size() == 1, "stringset", "no text changed the set");
        set<uint64_t> b; b.insert(3); coda_get_uint64set(0, b); CHECK(b.size() == 1, "uint64set", "no text changed the set");
        return;
    }
    string s = nth(i);
    sig(hash(s)); if (!s.empty()) mark();
    check_split(s, ","); check_split(s, ", "); check_split(s, "");
    check_stringset(s, set<string>()); check_words(s); check_num(s);
}

// ---- texts whose length does not fit in 32 bits ------------------------------------------------------------------------------
void vp_custom()
{
    const size_t N = ((size_t) 1 << 32) + 8;
    for (unsigned k = opt.shard; k < 6; k += opt.shards)
    {
        if (k == 0)
        {
            Long l("a", ",", N, ",,b"); vector<string> w = { "a", "b" };
            CHECK(coda_split_string(l.p, l.n, ",") == w, "split-sized", "splitting a text of %zu bytes does not give its two tokens", N);
        }
        else if (k == 1)
        {
            Long l("a", ",", N, ",,b"); vector<string> w = { "a", "b" };
            CHECK(coda_split_string(l.p, ",") == w, "split-terminated", "splitting a text of %zu bytes does not give its two tokens", N);
        }
        else if (k == 2)
        {
            Long l("", " ", N, "word "); const char *b = l.p, *e = l.p; int r = get_next_word(b, e);
            CHECK(r && b == l.p + N - 5 && e == l.p + N - 1, "word", "behind %zu spaces get_next_word returned %d and a word at %zd of %zd bytes", N - 5, r, b - l.p, e - b);
        }
        else if (k == 3)
        {
            Long l("", "w", N, "w "); const char *b = l.p, *e = l.p; int r = get_next_word(b, e);
            CHECK(r && b == l.p && e == l.p + N - 1, "word", "for a word of %zu bytes get_next_word returned %d and a word at %zd of %zd bytes", N - 1, r, b - l.p, e - b);
        }
        else if (k == 4)
        {
            Long l("", "0", N, "0x"); uint64_t g = coda_atou(l.p, N - 1);
            CHECK(g == 0, "atou", "%zu zeros are %llu", N - 1, (unsigned long long) g);
            l.p[N - 2] = '7'; g = coda_atou(l.p, N - 1);
            CHECK(g == 7, "atou", "7 after %zu zeros is %llu", N - 2, (unsigned long long) g);
        }
        else
        {
            Long l("", "0", N, "x"); uint64_t g = coda_atou(l.p, N);
            l.p[4] = '1'; g = coda_atou(l.p, N);
            CHECK(g == 0, "atou", "a text of %zu digits and a letter is %llu", N - 1, (unsigned long long) g);
            l.p[0] = '-'; l.p[N - 1] = '7'; int64_t i = coda_atoi(l.p, 6);
            CHECK(i == -10, "atoi", "-00010 is %lld", (long long) i);
        }
        evaluated(1); distinct(k); ev("texts of more than 4 GiB");
    }
}
