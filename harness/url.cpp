// C05 percent-encoding, C06 bounded escape helpers, C07 query and header parsing.
#include "common.hpp"
#include "longtext.hpp"
#include <coda/url.hpp>
using std::string;
using namespace vp;

static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool unreserved(unsigned char c)
{
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~';
}
static string esc(unsigned char c) { static const char h[] = "0123456789ABCDEF"; return string("%") + h[c >> 4] + h[c & 15]; }
static string r_enc(const string &s, bool plus)
{
    string r;
    for (unsigned char c : s) r += unreserved(c) ? string(1, c) : c == ' ' && plus ? string("+") : esc(c);
    return r;
}
static string r_dec(const string &s)
{
    string r;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { r += char(hexv(s[i + 1]) << 4 | hexv(s[i + 2])); i += 3; }
        else { r += s[i] == '+' ? ' ' : s[i]; ++i; }
    }
    return r;
}

// ---- C05 ---------------------------------------------------------------------------------
static void c05_decode(const string &t)
{
    string want = r_dec(t);
    {
        Exact in(t);
        string g = coda_urldec(in.p, in.n);
        CHECK(g == want, "decode-string", "urldec(%s) gave %s, expected %s", S(t), S(g), S(want));
    }
    {
        // the result is never longer than the text
        Exact in(t), out(t.size() + 1);
        size_t r = coda_urldec(out.p, in.p, in.n);
        CHECK(r == want.size() && string(out.p, r) == want, "decode-buffer", "urldec into a buffer of %s gave %zu bytes %s, expected %s", S(t), r, S(string(out.p, std::min(r, out.n))), S(want));
        CHECK(out.p[r] == 0, "decode-terminator", "urldec(%s) is not terminated", S(t));
    }
    CHECK(coda_urldec(t) == want, "decode-std", "urldec of a std::string %s differs", S(t));
    ev("texts decoded");
}
static void c05(const string &s)
{
    sig(hash(s)); if (!s.empty()) mark();
    string want = r_enc(s, true), np = r_enc(s, false);
    if (want_sample()) sample("bytes %s -> %s", S(s), S(want));
    {
        Exact in(s);
        string g = coda_urlenc(in.p, in.n);
        CHECK(g == want, "encode-string", "urlenc(%s) gave %s", S(s), S(g));
        g = coda_urlenc_noplus(in.p, in.n);
        CHECK(g == np, "encode-noplus", "urlenc_noplus(%s) gave %s", S(s), S(g));
    }
    {
        Exact in(s), out(want.size() + 1);
        size_t r = coda_urlenc(out.p, in.p, in.n);
        CHECK(r == want.size() && string(out.p, r) == want, "encode-buffer", "urlenc into a buffer of %s gave %zu bytes, expected %zu", S(s), r, want.size());
        CHECK(out.p[r] == 0, "encode-terminator", "urlenc(%s) is not terminated", S(s));
    }
    CHECK(coda_urlenc(s) == want && coda_urlenc_noplus(s) == np, "encode-std", "urlenc of a std::string %s differs", S(s));
    HCHECK(r_dec(want) == s && r_dec(np) == s, "the reference does not round-trip");
    ev("byte strings encoded");
    c05_decode(want); c05_decode(np);
}

// ---- C06 ---------------------------------------------------------------------------------
// a full result is a list of units; a short buffer holds a prefix of their concatenation
static bool under_specified(const string &s)
{
    // %u followed by one to three hex digits
    for (size_t i = 0; i + 2 < s.size(); ++i)
        if (s[i] == '%' && s[i + 1] == 'u')
        {
            size_t k = 0;
            while (k < 4 && i + 2 + k < s.size() && hexv(s[i + 2 + k]) >= 0) ++k;
            if (k > 0 && k < 4) return true;
        }
    return false;
}
static string r_unescape(const string &s)
{
    string r;
    for (size_t i = 0; i < s.size();)
    {
        auto h = [&](size_t k) { return i + k < s.size() ? hexv(s[i + k]) : -1; };
        if (s[i] == '+') { r += ' '; ++i; }
        else if (s[i] == '%' && h(1) >= 0 && h(2) >= 0) { r += char(h(1) << 4 | h(2)); i += 3; }
        else if (s[i] == '%' && i + 1 < s.size() && s[i + 1] == 'u' && h(2) >= 0)
        {
            unsigned c = 0; size_t k = 2;
            while (k < 6 && h(k) >= 0) c = c << 4 | h(k++);
            if (c < 0x80) r += char(c);
            else if (c < 0x800) { r += char(c >> 6 | 0xc0); r += char((c & 0x3f) | 0x80); }
            i += k;
        }
        else if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'x' && h(2) >= 0 && h(3) >= 0) { r += char(h(2) << 4 | h(3)); i += 4; }
        else r += s[i++];
    }
    return r;
}
static string r_preunescape(const string &s)
{
    string r;
    for (size_t i = 0; i < s.size();)
    {
        auto h = [&](size_t k) { return i + k < s.size() ? hexv(s[i + k]) : -1; };
        if (s[i] == '%' && h(1) >= 8 && h(2) >= 0) { r += char(h(1) << 4 | h(2)); i += 3; }
        else if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == 'x' && h(2) >= 8 && h(3) >= 0) { r += char(h(2) << 4 | h(3)); i += 4; }
        else r += s[i++];
    }
    return r;
}
static void c06_one(const char *name, void (*f)(const char *, char *, size_t), const string &s, const string &full, bool exact, size_t sz)
{
    ExactZ in(s); Exact out(sz, 0x5a);
    f(in.p, out.p, sz);
    ev(name);
    if (!sz) { ev("size zero"); return; }
    const char *z = (const char *) memchr(out.p, 0, sz);
    CHECK(z, "unterminated", "%s(%s) into %zu bytes is not terminated", name, S(s), sz);
    if (!exact) { ev("underspecified escapes checked for bounds only"); return; }
    if (full.size() < sz)
    {
        CHECK(string(out.p, full.size()) == full && out.p[full.size()] == 0, "wrong-result", "%s(%s) into %zu bytes gave %s, expected %s",
              name, S(s), sz, S(string(out.p, strnlen(out.p, sz))), S(full));
        ev("results that fit");
    }
    else
    {
        // the stored part ends with the terminator; a decoded NUL may be part of it
        size_t n = sz;
        bool ok = false;
        for (size_t k = 0; k < n && !ok; ++k) ok = out.p[k] == 0 && !memcmp(out.p, full.data(), k);
        CHECK(ok, "not-a-prefix", "%s(%s) into %zu bytes gave %s, not a prefix of %s", name, S(s), sz, S(string(z > out.p ? out.p : out.p, strnlen(out.p, sz))), S(full));
        ev("results cut");
    }
}
static void c06(const string &s0, size_t a)
{
    string s = s0.substr(0, s0.find('\0'));
    sig(hash(s)); if (!s.empty()) mark();
    if (want_sample()) sample("text %s: escaped %s, unescaped %s, partly %s", S(s), S(r_enc(s, true)), S(r_unescape(s)), S(r_preunescape(s)));
    struct { const char *n; void (*f)(const char *, char *, size_t); string full; bool exact; } t[] = {
        { "url_escape", coda_url_escape, r_enc(s, true), true },
        { "url_unescape", coda_url_unescape, r_unescape(s), !under_specified(s) },
        { "url_preunescape", coda_url_preunescape, r_preunescape(s), true },
    };
    for (auto &x : t)
    {
        size_t n = x.full.size();
        c06_one(x.n, x.f, s, x.full, x.exact, n + 1);
        c06_one(x.n, x.f, s, x.full, x.exact, n);
        c06_one(x.n, x.f, s, x.full, x.exact, n + 2 + a % 9);
        c06_one(x.n, x.f, s, x.full, x.exact, a % (n + 1));
        c06_one(x.n, x.f, s, x.full, x.exact, a % 7);
        if (n > 1) c06_one(x.n, x.f, s, x.full, x.exact, n - 1 - a % std::min<size_t>(n, 8) % n);
    }
}

// ---- C07 ---------------------------------------------------------------------------------
typedef std::map<string, string> M;
static void pairs(const std::vector<string> &fields, char sep, bool stop_at_empty, M &m)
{
    for (auto &f : fields)
    {
        if (f.empty() && stop_at_empty) return;
        size_t e = f.find(sep);
        if (e != string::npos) m[f.substr(0, e)] = f.substr(e + 1);
    }
}
static std::vector<string> cut(const string &s, const string &d)
{
    std::vector<string> r; size_t i = 0, k;
    while ((k = s.find(d, i)) != string::npos) { r.push_back(s.substr(i, k - i)); i = k + d.size(); }
    r.push_back(s.substr(i));
    return r;
}
static string showm(const M &m) { string r = "{"; for (auto &x : m) r += show(x.first, 40) + ":" + show(x.second, 40) + " "; return r + "}"; }
static void c07(const string &s, const M &before)
{
    sig(hash(s)); if (!s.empty()) mark();
    struct { const char *n; bool hdr; } k[] = { { "params", false }, { "header", true } };
    for (auto &x : k)
    {
        M want = before;
        pairs(cut(s, x.hdr ? "\r\n" : "&"), x.hdr ? ':' : '=', x.hdr, want);
        {
            Exact in(s); M g = before;
            int r = x.hdr ? coda_get_header_buf(g, in.p, in.n) : coda_get_params_buf(g, in.p, in.n);
            CHECK(r == 0 && g == want, x.hdr ? "header" : "params", "get_%s_buf(%s) returned %d, %s, expected %s", x.n, S(s), r, showm(g).c_str(), showm(want).c_str());
        }
        string z = s.substr(0, s.find('\0'));
        want = before;
        pairs(cut(z, x.hdr ? "\r\n" : "&"), x.hdr ? ':' : '=', x.hdr, want);
        {
            ExactZ in(z); M g = before;
            int r = x.hdr ? coda_get_header(g, in.p) : coda_get_params(g, in.p);
            CHECK(r == 0 && g == want, x.hdr ? "header-terminated" : "params-terminated", "get_%s(%s) returned %d, %s, expected %s", x.n, S(z), r, showm(g).c_str(), showm(want).c_str());
        }
        if (want_sample() && !want.empty()) sample("%s %s -> %s", x.n, S(s), showm(want).c_str());
        ev(x.hdr ? "header blocks parsed" : "query strings parsed");
        ev("fields found", want.size() - before.size() > want.size() ? 0 : want.size() - before.size());
    }
}

static int prop;
void vp_init() { prop = atoi(opt.str("prop", "C05").c_str() + 1); }

static string escapes(In &in, size_t n)
{
    string s;
    for (size_t i = 0; i < n; ++i)
        switch (in.below(10))
        {
        case 0: s += fmt("%%%02X", in.u8()); break;
        case 1: s += fmt("%%%02x", in.u8()); break;
        case 2: s += fmt("\\x%02x", in.u8()); break;
        case 3: s += fmt("%%u%04X", in.chance(1, 2) ? in.below(0x880) : in.u16()); break;
        case 4: s += "%"; break;
        case 5: s += in.chance(1, 2) ? "\\" : in.chance(1, 2) ? "\\x" : "%u"; break;
        case 6: s += "+ "; break;
        case 7: s += (char) in.u8(); break;
        case 8: s += "0123456789abcdefABCDEF"[in.below(22)]; break;
        default: s += "xyz_-.~/@`{"[in.below(11)]; break;
        }
    return s;
}

void vp_case(In &in)
{
    size_t max = in.chance(1, 60) ? opt.phase == "rand" && in.chance(1, 4) ? 70000 : 20000 : 120;
    if (prop == 5)
    {
        if (in.chance(1, 2)) { c05(in.chance(1, 3) ? in.bytes(in.len(max), "aZ09-._~ +%/&=\x7f\xff") : in.bytes(in.len(max))); return; }
        string t = in.chance(1, 2) ? escapes(in, in.len(40)) : in.bytes(in.len(max), "%0aF+g zZ\xff");
        if (in.chance(1, 4)) t.resize(t.size() - std::min<size_t>(t.size(), in.below(4)));
        sig(hash(t, 5)); if (!t.empty()) mark();
        if (want_sample()) sample("text %s -> %s", S(t), S(r_dec(t)));
        c05_decode(t);
    }
    else if (prop == 6)
    {
        string s = in.chance(2, 3) ? escapes(in, in.len(40)) : in.bytes(in.len(max));
        c06(s, in.u16());
    }
    else
    {
        string s;
        if (in.chance(1, 4)) s = in.bytes(in.len(max), string("ab=&:\r\n\0 ", 9));
        else
        {
            unsigned n = in.below(in.chance(1, 20) ? 200 : 10);
            bool hdr = in.chance(1, 2);
            static const char *const names[] = { "a", "b", "key", "", "x y", "Host", "\xd0\xb0", "a=b", "A" };
            for (unsigned i = 0; i < n; ++i)
            {
                if (i) s += hdr ? in.chance(1, 8) ? "\r\n\r\n" : in.chance(1, 10) ? "\n" : "\r\n" : in.chance(1, 8) ? "&&" : "&";
                s += in.pick(names);
                if (!in.chance(1, 5)) s += hdr ? in.chance(1, 2) ? ": " : ":" : "=";
                if (in.chance(1, 10)) s += in.bytes(in.below(5));
                s += in.bytes(in.len(20), "abc=:;& 01");
            }
            if (in.chance(1, 2)) s += hdr ? in.chance(1, 2) ? "\r\n" : "\r\n\r\nbody: x\r\n" : "&";
            if (in.chance(1, 8) && !s.empty()) s[in.below(s.size())] = in.chance(1, 2) ? 0 : in.chance(1, 2) ? '\r' : '\n';
        }
        if (in.chance(1, 150) && opt.phase == "rand")
        {
            // names and values of more bytes than small counts hold
            size_t n = ((size_t) 1 << (8 + in.below(9))) - 4 + in.below(40);
            s.insert(in.below(s.size() + 1), in.chance(3, 4) ? string(n, 'q') : in.bytes(n, "abc=:&"));
            if (n > 65530) ev("fields of more than 64 KiB");
        }
        M before;
        if (in.chance(1, 2)) { before["kept"] = "1"; before["a"] = "old"; }
        c07(s, before);
    }
}

static uint64_t cnt(uint64_t b, unsigned n) { uint64_t s = 0, e = 1; for (unsigned i = 0; i <= n; ++i) { s += e; e *= b; } return s; }
static string nth(uint64_t i, const char *al, size_t b) { size_t n = 0; uint64_t e = 1; while (i >= e) { i -= e; e *= b; ++n; } string s; while (n--) { s += al[i % b]; i /= b; } return s; }
static const char A5[] = { '%', '0', 'a', 'F', 'g', '+', (char) 0xe3 };
static const char A6[] = { '%', 'u', '4', 'd', '\\', 'x', '+', (char) 0xd0 };
static const char A7[] = { '=', '&', 'a', ':', '\r', '\n', 0 };
uint64_t vp_exh_count(bool th)
{
    if (prop == 5) return 65536 + cnt(7, th ? 7 : 5);
    if (prop == 6) return 65536 + 256 + cnt(8, th ? 6 : 4);
    return 1 + cnt(7, th ? 7 : 5);
}
void vp_exh(uint64_t i)
{
    if (prop == 5)
    {
        if (i < 65536) { c05(string{ char(i >> 8), char(i) }); return; }
        string t = nth(i - 65536, A5, 7);
        sig(hash(t, 5)); if (!t.empty()) mark();
        c05_decode(t);
    }
    else if (prop == 6)
    {
        if (i < 65536) { c06(i & 1 ? fmt("a%%u%04x%x", (unsigned) i, (unsigned) i & 15) : fmt("%%u%04X", (unsigned) i), i >> 3); return; }
        i -= 65536;
        if (i < 256) { c06(fmt("\\x%02x%%%02x%c", (unsigned) i, (unsigned) i, (int) i ? (int) i : 'z'), i); return; }
        i -= 256;
        string t = nth(i, A6, 8);
        for (size_t a = 0; a < 7; ++a) c06(t, a);
    }
    else
    {
        M before; before["a"] = "old";
        if (i == 0)
        {
            CHECK(coda_get_params_buf(before, 0, 5) == -1 && coda_get_header_buf(before, 0, 5) == -1 && coda_get_params(before, 0) == -1 &&
                  coda_get_header(before, 0) == -1 && before.size() == 1, "null", "no text was accepted");
            return;
        }
        c07(nth(i - 1, A7, 7), i & 1 ? before : M());
    }
}

// ---- texts and buffers whose length does not fit in 32 bits ------------------------------------------------------------------
void vp_custom()
{
    const size_t N = ((size_t) 1 << 32) + 8; const string prop = opt.str("prop", "C05");
    for (unsigned k = opt.shard; k < 4; k += opt.shards)
    {
        if (prop == "C05")
        {
            if (k > 1 && !memory(16)) { evaluated(1); distinct(k); continue; }
            if (k == 0)
            {
                Long l("", " ", N, "\xff"), o("", "x", N + 8, ""); size_t r = coda_urlenc(o.p, l.p, N);
                CHECK(r == N + 2 && o.is(N - 1, "+") && !memcmp(o.p + N - 1, "%FF", 4) && o.p[N + 3] == 'x', "encode-buffer", "urlenc of %zu bytes gives %zu", N, r);
            }
            else if (k == 1)
            {
                Long l("", "+", N, "%fF"), o("", "x", N, ""); size_t r = coda_urldec(o.p, l.p, N);
                CHECK(r == N - 2 && o.is(N - 3, " ") && !memcmp(o.p + N - 3, "\xff", 2) && o.p[N - 1] == 'x', "decode-buffer", "urldec of %zu bytes gives %zu", N, r);
            }
            else if (k == 2)
            {
                Long l("", "a", N / 2, "\xff"); string r = coda_urlenc(l.p, l.n);
                CHECK(r.size() == l.n + 2 && r[0] == 'a' && !memcmp(r.data() + l.n - 1, "%FF", 4), "encode-string", "urlenc of %zu bytes gives %zu", l.n, r.size());
            }
            else
            {
                Long l("", "a", N / 2, "%FF"); string r = coda_urldec(l.p, l.n);
                CHECK(r.size() == l.n - 2 && r[0] == 'a' && r[l.n - 4] == 'a' && !memcmp(r.data() + l.n - 3, "\xff", 2), "decode-string", "urldec of %zu bytes gives %zu", l.n, r.size());
            }
        }
        else if (prop == "C06")
        {
            Long o("", "x", N, "");
            coda_url_escape("a b/\xd0", o.p, N); CHECK(!memcmp(o.p, "a%20b%2F%D0", 12) || !memcmp(o.p, "a+b%2F%D0", 10), "escape", "escaping into a buffer of %zu gives %s", N, S(string(o.p, 14)));
            coda_url_unescape("a+b%2F%u0430c", o.p, N); CHECK(!memcmp(o.p, "a b/\xd0\xb0" "c", 8), "unescape", "unescaping into a buffer of %zu gives %s", N, S(string(o.p, 14)));
            coda_url_preunescape("a+%d0%20bcdef", o.p, N); CHECK(!memcmp(o.p, "a+\xd0%20bcdef", 12), "preunescape", "partially unescaping into a buffer of %zu gives %s", N, S(string(o.p, 14)));
            if (k)
            {
                Long l("", k == 2 ? "+" : "a", N - 4, "b");
                if (k == 1) coda_url_escape(l.p, o.p, N); else if (k == 2) coda_url_unescape(l.p, o.p, N); else coda_url_preunescape(l.p, o.p, N);
                CHECK(o.is(N - 5, k == 2 ? " " : "a") && !memcmp(o.p + N - 5, "b", 2), k == 1 ? "escape" : k == 2 ? "unescape" : "preunescape", "a text of %zu bytes is not %sescaped as a whole", N - 4, k == 1 ? "" : k == 2 ? "un" : "partially un");
            }
        }
        else
        {
            coda_params_t w, g; w["k"] = "v"; w["z"] = "9";
            Long q("k=v&", "a", N, "&z=9"), h("k:v\r\n", "a", N, "\r\nz:9");
            int r = k == 0 ? coda_get_params_buf(g, q.p, N) : k == 1 ? coda_get_params(g, q.p) : k == 2 ? coda_get_header_buf(g, h.p, N) : coda_get_header(g, h.p);
            CHECK(!r && g == w, k < 2 ? "params" : "header", "the two fields around %zu other bytes are not found", N - 8);
        }
        evaluated(1); distinct(k); ev("texts or buffers of more than 4 GiB");
    }
}
