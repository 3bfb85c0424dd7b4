// C30 tone removal against a table made from the Unicode decompositions.
#include "common.hpp"
#include <coda/vietnam.hpp>
#include "viet_table.hpp"
using namespace vp;
using std::string;

static std::map<unsigned, char> table;

static string enc(unsigned c)
{
    string s;
    if (c < 0x80) s += (char) c;
    else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
    else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
    return s;
}
static string want(const std::vector<unsigned> &v)
{
    string r;
    for (unsigned c : v)
    {
        if (c >= 0x300 && c <= 0x36F) continue;
        auto i = table.find(c);
        if (i != table.end()) r += i->second; else r += enc(c);
    }
    return r;
}
static string run(const string &s) { Exact e(s); return coda_remove_tones_utf8(e.p, e.n); }

// valid text, then possibly the beginning of one more character
static void valid(const std::vector<unsigned> &v, const string &cut)
{
    string s, w = want(v);
    for (unsigned c : v) s += enc(c);
    string r = run(s);
    CHECK(r == w, "mapping", "%s gives %s, expected %s", S(s), S(r), S(w));
    CHECK(r.size() <= s.size(), "longer", "%s gives the longer %s", S(s), S(r));
    string again = run(r);
    CHECK(again == r, "second-pass", "%s gives %s, and that gives %s", S(s), S(r), S(again));
    ev("valid texts");
    if (r != s) ev("valid texts changed");
    if (!cut.empty())
    {
        string c = run(s + cut);
        CHECK(c == w + cut, "cut-off", "%s, ending in a cut-off character, gives %s, expected %s", S(s + cut), S(c), S(w + cut));
        ev("texts ending in a cut-off character");
    }
    if (want_sample() && r != s) sample("%s -> %s", S(s), S(r));
}
static void anybytes(const string &s)
{
    string r = run(s);
    CHECK(r.size() <= s.size(), "longer", "%s gives the longer %s", S(s), S(r));
    ev("arbitrary texts");
}

static unsigned cp(In &in)
{
    switch (in.below(8))
    {
    case 0: return 1 + in.below(127);
    case 1: return 'a' + in.below(26);
    case 2: case 3: case 4: return VIET[in.below(sizeof(VIET) / sizeof(*VIET))].c;
    case 5: return 0x2F0 + in.below(0x90);
    case 6: return 0x80 + in.below(0x2000);
    default: { unsigned c = in.below(0x110000); return c >= 0xD800 && c < 0xE000 ? 0x1EA0 : c; }
    }
}
void vp_case(In &in)
{
    if (in.chance(1, 4))
    {
        string s;
        for (unsigned k = in.below(12); k--; ) s += in.chance(1, 2) ? enc(cp(in)) : in.bytes(1 + in.below(4));
        if (in.chance(1, 3)) s += in.bytes(in.len(opt.phase == "rand" && in.chance(1, 300) ? 70000 : 300));
        sig(hash(s)); anybytes(s); if (!s.empty()) mark();
        return;
    }
    std::vector<unsigned> v(in.chance(1, 20) ? in.below(2000) : in.below(20));
    Rng r(in.u32());
    for (size_t i = 0; i < v.size(); ++i) v[i] = i < 30 ? cp(in) : i % 3 ? VIET[r.below(sizeof(VIET) / sizeof(*VIET))].c : 1 + (unsigned) r.below(0x7000);
    for (auto &c : v) sig(c);
    string cut;
    if (in.chance(1, 2)) { unsigned c; do c = cp(in); while (c < 0x80 && in.more()); cut = enc(c < 0x80 ? 0x1EA1 : c); cut.resize(1 + in.below(cut.size() - 1)); sig(hash(cut)); }
    valid(v, cut);
    mark();
}

// every character alone and between others; every text of two (thorough: three) bytes
uint64_t vp_exh_count(bool th) { return 0x110000 + 65536 + (th ? 256 * 65536 : 0) + 256 * 2048; }
void vp_exh(uint64_t i)
{
    if (i < 0x110000)
    {
        if (i == 0 || (i >= 0xD800 && i < 0xE000)) { valid(std::vector<unsigned>(1, (unsigned) 0), ""); return; }
        unsigned c = (unsigned) i;
        string cut = enc(c); cut.resize(cut.size() - 1);
        std::vector<unsigned> v = { 'x', c, VIET[c % (sizeof(VIET) / sizeof(*VIET))].c };
        valid(v, cut);
        valid(std::vector<unsigned>(1, c), "");
        sig(i); mark();
        return;
    }
    i -= 0x110000;
    string s;
    if (i < 65536) { s += (char) i; s += (char) (i >> 8); }
    else
    {
        i -= 65536;
        if (i < 256 * 2048) { i = i * 32 + i % 32; s = "\xE1"; s += (char) i; s += (char) (i >> 8); s += (char) (i >> 16); }
        else { i -= 256 * 2048; s += (char) i; s += (char) (i >> 8); s += (char) (i >> 16); }
    }
    anybytes(s); anybytes(s + "a");
    sig(hash(s)); mark();
}
void vp_init() { for (auto &t : VIET) table[t.c] = t.b; }
