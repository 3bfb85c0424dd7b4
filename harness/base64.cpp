// C03 (base64) and C04 (web64) against an independent RFC 4648 reference.
#include "common.hpp"
#include "longtext.hpp"
#include <coda/base64.h>
#include <coda/web64.h>
#define VP_ALLOCWRAP_IMPL
#include "allocwrap.hpp"
using std::string;
using namespace vp;

static bool web;
static const char *A;
static char PAD;

void vp_init()
{
    web = opt.str("prop", "C03") == "C04";
    A = web ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
            : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    PAD = web ? '.' : '=';
}
static void enc(const char *i, size_t n, char *o, size_t m) { web ? web64_encode(i, n, o, m) : coda_base64_encode(i, n, o, m); }
static bool dec(const char *i, size_t n, char *o, size_t *m) { return web ? web64_decode(i, n, o, m) : coda_base64_decode(i, n, o, m); }

static string ref_encode(const string &s)
{
    string r;
    unsigned acc = 0, bits = 0;
    for (unsigned char c : s)
    {
        acc = (acc << 8 | c) & 0xffffff; bits += 8;
        while (bits >= 6) { bits -= 6; r += A[acc >> bits & 63]; }
    }
    if (bits) r += A[acc << (6 - bits) & 63];
    while (r.size() % 4) r += PAD;
    return r;
}
static int digit(unsigned char c) { const char *p = c ? strchr(A, c) : 0; return p ? int(p - A) : -1; }

// true and bytes when the text is well formed; otherwise the bytes of the whole groups before the offending one
static bool ref_decode(const string &t, string &out)
{
    out.clear();
    size_t n = t.size(), i = 0;
    for (; i + 4 <= n; i += 4)
    {
        bool last = i + 4 == n;
        int a = digit(t[i]), b = digit(t[i + 1]), c = digit(t[i + 2]), d = digit(t[i + 3]);
        if (a < 0 || b < 0) return false;
        unsigned v = a << 18 | b << 12;
        if (c >= 0 && d >= 0) { v |= c << 6 | d; out += char(v >> 16); out += char(v >> 8); out += char(v); }
        else if (c >= 0 && last && t[i + 3] == PAD) { v |= c << 6; out += char(v >> 16); out += char(v >> 8); }
        else if (last && t[i + 2] == PAD && t[i + 3] == PAD) { out += char(v >> 16); }
        else return false;
    }
    return i == n;
}

static void enc_into(const string &s, const string &want, size_t outlen)
{
    Exact in(s), out(outlen);
    enc(in.p, in.n, out.p, out.n);
    size_t k = std::min(outlen, want.size());
    CHECK(string(out.p, k) == want.substr(0, k), "encode-buffer", "encode(%s) into %zu bytes gave %s, expected a prefix of %s",
          S(s), outlen, S(string(out.p, k)), S(want));
    if (outlen > want.size())
        CHECK(out.p[want.size()] == 0, "encode-terminator", "encode(%s) into %zu bytes is not terminated at %zu", S(s), outlen, want.size());
    CHECK(in.str() == s, "encode-input", "encode changed its input");
    ev(outlen > want.size() ? "encode into a sufficient buffer" : "encode into a short buffer");
}

static void dec_into(const string &t, size_t outlen)
{
    string want;
    bool ok = ref_decode(t, want);
    Exact in(t), out(outlen);
    size_t m = outlen;
    bool r = dec(in.p, in.n, out.p, &m);
    CHECK(r == ok, ok ? "decode-rejects" : "decode-accepts", "decode(%s) with %zu bytes of room returned %d", S(t), outlen, r);
    size_t k = std::min(outlen, want.size());
    if (ok) CHECK(m == k, "decode-length", "decode(%s) with %zu bytes of room reported %zu, expected %zu", S(t), outlen, m, k);
    else
    {
        size_t hi = std::min(outlen, want.size() + 3);
        CHECK(m >= k && m <= hi, "decode-length", "failing decode(%s) with %zu bytes of room reported %zu, expected %zu to %zu", S(t), outlen, m, k, hi);
    }
    CHECK(string(out.p, k) == want.substr(0, k), "decode-bytes", "decode(%s) with %zu bytes of room gave %s, expected a prefix of %s",
          S(t), outlen, S(string(out.p, k)), S(want));
    ev(ok ? outlen >= want.size() ? "valid text decoded" : "valid text decoded into a short buffer" : "invalid text rejected");
}

static void dec_alloc(const string &t, bool want_len)
{
    string want;
    bool ok = ref_decode(t, want);
    Exact in(t);
    char *p = (char *) 1; size_t m = 987654;
    bool r = coda_base64_decode_alloc(in.p, in.n, &p, want_len ? &m : 0);
    CHECK(r == ok, "decode-alloc", "decode_alloc(%s) returned %d", S(t), r);
    if (!ok) { CHECK(p == 0, "decode-alloc-buffer", "decode_alloc(%s) failed but left a buffer", S(t)); return; }
    CHECK(p != 0, "decode-alloc", "decode_alloc(%s) gave no buffer", S(t));
    if (want_len) CHECK(m == want.size(), "decode-alloc-length", "decode_alloc(%s) reported %zu bytes, expected %zu", S(t), m, want.size());
    CHECK(string(p, want.size()) == want, "decode-alloc-bytes", "decode_alloc(%s) gave %s", S(t), S(string(p, want.size())));
    free(p);
    ev("decode_alloc checked");
}

static void enc_alloc(const string &s, const string &want)
{
    Exact in(s);
    char *p = (char *) 1;
    size_t r = coda_base64_encode_alloc(in.p, in.n, &p);
    CHECK(p && r == want.size() && strlen(p) == r && want == p, "encode-alloc", "encode_alloc(%s) returned %zu, %s", S(s), r, p ? p : "(null)");
    free(p);
    ev("encode_alloc checked");
}

static void check_encode(const string &s, size_t a, size_t b)
{
    string want = ref_encode(s);
    sig(hash(s, 1)); if (!s.empty()) mark();
    size_t elen = web ? WEB64_LENGTH(s.size()) : CODA_BASE64_LENGTH(s.size()), dlen = web ? WEB64_DECODE_LENGTH(want.size()) : CODA_BASE64_DECODE_LENGTH(want.size());
    CHECK(elen == want.size(), "length-macro", "the encoded length of %zu bytes is given as %zu, it is %zu", s.size(), elen, want.size());
    CHECK(dlen >= s.size() && dlen <= s.size() + 5, "length-macro", "the room for decoding %zu characters is given as %zu, %zu bytes are needed", want.size(), dlen, s.size());
    dec_into(want, dlen);
    if (want_sample()) sample("bytes %s -> %s", S(s), S(want));
    enc_into(s, want, want.size() + 1);
    enc_into(s, want, want.size());
    enc_into(s, want, a % (want.size() + 1));
    enc_into(s, want, want.size() + 1 + b);
    if (!web) enc_alloc(s, want);
    string back;
    HCHECK(ref_decode(want, back) && back == s, "reference does not round-trip");
    dec_into(want, s.size());
    dec_into(want, s.size() + b);
    dec_into(want, a % (s.size() + 1));
}

static void check_decode(const string &t, size_t a)
{
    string want;
    bool ok = ref_decode(t, want);
    sig(hash(t, 2)); if (!t.empty()) mark();
    if (want_sample()) sample("text %s -> %s", S(t), ok ? S(want) : "rejected");
    dec_into(t, t.size() / 4 * 3 + 3);
    dec_into(t, want.size());
    dec_into(t, a % (want.size() + 4));
    if (!web) { dec_alloc(t, true); dec_alloc(t, false); }
}

static void check_oom(const string &s, const string &t)
{
    {
        Exact in(s); char *p = (char *) 1;
        AllocFault f(1);
        size_t r = coda_base64_encode_alloc(in.p, in.n, &p);
        f.off();
        CHECK(p == 0 && r == (s.size() + 2) / 3 * 4 + 1, "encode-alloc-oom", "encode_alloc of %zu bytes without memory returned %zu, buffer %p",
              s.size(), r, (void *) p);
    }
    {
        Exact in(t); char *p = (char *) 1; size_t m = 987654;
        AllocFault f(1);
        bool r = coda_base64_decode_alloc(in.p, in.n, &p, &m);
        f.off();
        string w; ref_decode(t, w);
        CHECK(p == 0 && r, "decode-alloc-oom", "decode_alloc without memory returned %d, buffer %p", r, (void *) p);
        CHECK(m != 987654 && m >= w.size() && m <= t.size() + 8, "decode-alloc-oom-size", "decode_alloc of %zu bytes without memory reported a needed size of %zu", t.size(), m);
        AllocFault g(1);
        p = (char *) 1;
        r = coda_base64_decode_alloc(in.p, in.n, &p, 0);
        g.off();
        CHECK(p == 0 && r, "decode-alloc-oom", "decode_alloc without memory returned %d, buffer %p", r, (void *) p);
    }
    ev("allocation failure reported");
}

static void check_huge(size_t n)
{
    // the length does not fit: no byte of the input may be looked at
    static const char one[1] = { 'x' };
    char *p = (char *) 1;
    unsigned __int128 need = ((unsigned __int128) n + 2) / 3 * 4 + 1;
    size_t r = coda_base64_encode_alloc(one, n, &p);
    if (need > (size_t) -1) CHECK(p == 0 && r == 0, "encode-alloc-overflow", "encode_alloc of %zu bytes returned %zu, buffer %p", n, r, (void *) p);
    else CHECK(p == 0 && r == (size_t) need, "encode-alloc-oom", "encode_alloc of %zu bytes returned %zu, buffer %p", n, r, (void *) p);
    ev("oversized request reported");
}

void vp_case(In &in)
{
    size_t max = in.chance(1, 100) ? 70000 : 500;
    if (opt.phase == "fuzz") max = 100;
    unsigned k = in.below(8);
    if (k < 3)
    {
        string s = in.chance(1, 4) ? in.bytes(in.len(max), string("\0\xff\x80\x7f", 4)) : in.bytes(in.len(max));
        check_encode(s, in.u16(), in.below(30));
        return;
    }
    if (k == 3 && !web)
    {
        string s = in.bytes(in.len(max));
        if (in.chance(1, 4)) { check_huge((size_t) -1 - in.below(5) - (in.chance(1, 2) ? 0 : in.u64() >> 3)); check_huge(((size_t) -1) / 4 * 3 + in.below(9) - 4); sig(in.u32()); }
        else { check_oom(s, ref_encode(s)); sig(hash(s, 3)); mark(); }
        return;
    }
    string t;
    if (k < 6) t = ref_encode(in.bytes(in.len(max)));
    else t = in.bytes(in.len(max), A) + string(in.below(4), PAD);
    static const char odd[] = "=.+/-_ \n\0,:@[`{\x80\xff*A";
    unsigned edits = in.below(4);
    for (unsigned e = 0; e < edits; ++e)
    {
        size_t at = in.chance(1, 2) && !t.empty() ? t.size() - 1 - in.below(std::min<size_t>(t.size(), 5)) : in.below(t.size() + 1);
        char c = in.chance(1, 3) ? PAD : in.chance(1, 2) ? odd[in.below(sizeof odd)] : (char) in.u8();
        switch (in.below(4))
        {
        case 0: if (at < t.size()) t[at] = c; break;
        case 1: t.insert(at, 1, c); break;
        case 2: if (at < t.size()) t.erase(at, 1); break;
        default: t.resize(t.size() - std::min<size_t>(t.size(), in.below(5))); break;
        }
    }
    check_decode(t, in.u16());
}

// exhaustive: all inputs of up to 2 bytes (thorough 3), all texts of up to 5 characters over a set that
// covers every role of a character, every single character in every position of a group
static string chars() { return string("A/") + A[63] + A[62] + string("9z") + PAD + "=.+-_" + string("\0\x80\xff ", 4); }
uint64_t vp_exh_count(bool th)
{
    uint64_t c = chars().size(), e = 1, sum = 0;
    for (int i = 0; i <= 5; ++i) { sum += e; e *= c; }
    return 256 + 1 + 256 + 65536 + (th ? 1 << 24 : 0) + 8 * 256 * 4 + (th ? sum : sum - e / c);
}
void vp_exh(uint64_t i)
{
    if (i < 256)
    {
        if (!web) CHECK(coda_isbase64((char) i) == (digit((unsigned char) i) >= 0), "isbase64", "isbase64(%d) is %d", (int) i, coda_isbase64((char) i));
        ev("membership predicate checked");
        return;
    }
    i -= 256;
    if (i == 0) { check_encode("", 0, 3); return; }
    i -= 1;
    if (i < 256) { check_encode(string(1, (char) i), i, i % 5); return; }
    i -= 256;
    if (i < 65536) { check_encode(string{ char(i >> 8), char(i) }, i, i % 5); return; }
    i -= 65536;
    if (opt.thorough)
    {
        if (i < 1 << 24) { check_encode(string{ char(i >> 16), char(i >> 8), char(i) }, i, i % 5); return; }
        i -= 1 << 24;
    }
    if (i < 8 * 256 * 4)
    {
        // one character replaced in a text of one to four characters or groups
        static const char *const base[] = { "QUJD", "QUI", "QU", "Q" };
        string t = base[i % 4]; i /= 4;
        char c = (char) (i % 256); i /= 256;
        if (i & 4) t = "QUJD" + t;
        size_t at = i & 3;
        if (at < t.size()) t[i & 4 ? t.size() - 1 - at : at] = c; else t += c;
        check_decode(t, c);
        return;
    }
    i -= 8 * 256 * 4;
    string cs = chars(), t;
    size_t n = 0; uint64_t e = 1;
    while (i >= e) { i -= e; e *= cs.size(); ++n; }
    for (size_t k = 0; k < n; ++k) { t += cs[i % cs.size()]; i /= cs.size(); }
    check_decode(t, n);
}

// ---- texts and buffers whose length does not fit in 32 bits ------------------------------------------------------------------
void vp_custom()
{
    const size_t G = (size_t) 1 << 32;
    for (unsigned k = opt.shard; k < 3; k += opt.shards)
    {
        if (k == 0)
        {
            size_t n = G + 1, m = (n + 2) / 3 * 4; Long in("", "a", n, ""), out("", "x", m + 8, "");
            enc(in.p, n, out.p, m + 1);
            CHECK(out.is(m - 4, "YWFh") && !memcmp(out.p + m - 4, "YWE", 3) && out.p[m - 1] == PAD, "encode", "encoding %zu bytes does not give %zu digits", n, m);
            CHECK(!out.p[m] && out.p[m + 1] == 'x', "encode-terminator", "the encoding of %zu bytes is not ended where it should be", n);
        }
        else if (k == 1)
        {
            size_t n = G + 8, m = n / 4 * 3, got; Long in("", "YWFh", n, ""), out("", "x", m + 8, "");
            got = m + 8; bool ok = dec(in.p, n, out.p, &got);
            CHECK(ok && got == m && out.is(m, "a") && out.p[m] == 'x', "decode", "decoding %zu digits gives %zu bytes", n, got);
            in.p[n - 1] = '!'; got = m + 8;
            CHECK(!dec(in.p, n, out.p, &got), "decode-accepts", "a text of %zu digits that ends in a foreign character is accepted", n);
        }
        else
        {
            Long big("", "a", G + 1, ""), out("", "x", G + 2, ""); char o[9]; memset(o, 'x', sizeof o);
            enc(big.p, G + 1, o, 8); CHECK(!memcmp(o, "YWFhYWFhx", 9), "encode", "encoding %zu bytes into a buffer of 8 gives %s", G + 1, S(string(o, 9)));
            enc("aaa", 3, out.p, G + 2); CHECK(!memcmp(out.p, "YWFh", 5) && out.p[5] == 'x', "encode", "encoding into a buffer of %zu gives %s", G + 2, S(string(out.p, 6)));
            size_t got = G + 2; bool ok = dec("YWFhYWFh", 8, out.p, &got);
            CHECK(ok && got == 6 && !memcmp(out.p, "aaaaaa", 6), "decode", "decoding into a buffer of %zu gives %zu bytes", G + 2, got);
            Long bad("YWFhY!", "a", G + 4, ""); got = 8;
            CHECK(!dec(bad.p, G + 4, o, &got), "decode-accepts", "a text of %zu digits with a foreign character is accepted", G + 4);
        }
        evaluated(1); distinct(k); ev("texts or buffers of more than 4 GiB");
    }
}
