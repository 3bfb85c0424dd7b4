// C01, C02: base58 against an independent big-number reference.
#include "common.hpp"
#include <coda/base58.h>
#define VP_ALLOCWRAP_IMPL
#include "allocwrap.hpp"
using std::string;
using namespace vp;

static const char A[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

// canonical text by repeated long division, five digits at a time
static string ref_encode(const string &s)
{
    size_t z = 0;
    while (z < s.size() && !s[z]) ++z;
    std::vector<uint32_t> w;                       // big endian 24-bit words
    size_t n = s.size() - z, pad = (3 - n % 3) % 3;
    uint32_t acc = 0; size_t k = pad;
    for (size_t i = z; i < s.size(); ++i)
    {
        acc = acc << 8 | (unsigned char) s[i];
        if (++k == 3) { w.push_back(acc); acc = 0; k = 0; }
    }
    string rev;
    size_t b = 0;
    while (b < w.size() && !w[b]) ++b;
    while (b < w.size())
    {
        uint64_t rem = 0;
        for (size_t i = b; i < w.size(); ++i)
        {
            uint64_t v = rem << 24 | w[i];
            w[i] = (uint32_t) (v / 656356768u);    // 58^5
            rem = v % 656356768u;
        }
        while (b < w.size() && !w[b]) ++b;
        for (int i = 0; i < 5; ++i) { rev += A[rem % 58]; rem /= 58; }
    }
    while (!rev.empty() && rev.back() == '1') rev.pop_back();
    return string(z, '1') + string(rev.rbegin(), rev.rend());
}

static int digit(unsigned char c)
{
    const char *p = c ? strchr(A, c) : 0;
    return p ? int(p - A) : -1;
}

// value of a valid text: little-endian base 2^16 accumulation
static string ref_decode(const string &t)
{
    size_t z = 0;
    while (z < t.size() && t[z] == '1') ++z;
    std::vector<uint32_t> w;
    for (size_t i = z; i < t.size(); ++i)
    {
        uint32_t c = digit(t[i]);
        for (size_t j = 0; j < w.size(); ++j) { c += w[j] * 58u; w[j] = c & 0xffff; c >>= 16; }
        if (c) w.push_back(c);
    }
    string rev;
    for (uint32_t v : w) { rev += char(v & 255); rev += char(v >> 8); }
    while (!rev.empty() && !rev.back()) rev.pop_back();
    return string(z, '\0') + string(rev.rbegin(), rev.rend());
}

static size_t cap(const string &t)
{
    size_t z = 0;
    while (z < t.size() && t[z] == '1') ++z;
    return z + (t.size() - z) * 733 / 1000 + 1;
}

static void check_encode_into(const string &s, const string &want, size_t outlen)
{
    Exact in(s), out(outlen);
    coda_base58_encode(in.p, in.n, out.p, out.n);
    size_t k = std::min(outlen, want.size());
    CHECK(string(out.p, k) == want.substr(0, k), "encode-buffer", "encode(%s) into %zu bytes gave %s, expected prefix of %s",
          S(s), outlen, S(string(out.p, k)), S(want));
    if (outlen > want.size())
        CHECK(out.p[want.size()] == 0, "encode-terminator", "encode(%s) into %zu bytes is not terminated at %zu", S(s), outlen, want.size());
    CHECK(in.str() == s, "encode-input", "encode changed its input %s", S(s));
    ev(outlen > want.size() ? "encode into a sufficient buffer" : "encode into a short buffer");
}

static void check_valid_decode(const string &t, const string &want, const char *key)
{
    {
        Exact in(t), out(cap(t));
        ssize_t r = coda_base58_decode(in.p, in.n, out.p);
        CHECK(r == (ssize_t) want.size(), key, "decode(%s) returned %zd, expected %zu", S(t), r, want.size());
        CHECK(string(out.p, r) == want, key, "decode(%s) gave %s, expected %s", S(t), S(string(out.p, r)), S(want));
    }
    {
        Exact in(t);
        char *p = (char *) 1;
        ssize_t r = coda_base58_decode_alloc(in.p, in.n, &p);
        CHECK(p != 0 && r == (ssize_t) want.size(), key, "decode_alloc(%s) returned %zd, expected %zu", S(t), r, want.size());
        CHECK(string(p, r) == want, key, "decode_alloc(%s) gave %s, expected %s", S(t), S(string(p, r)), S(want));
        free(p);
    }
    ev("valid text decoded");
}

static void check_c01(const string &s, size_t shorter, size_t longer)
{
    string want = ref_encode(s);
    sig(hash(s)); if (!s.empty()) mark();
    if (want_sample()) sample("bytes %s -> %s", S(s), S(want));
    check_encode_into(s, want, want.size() + 1);
    check_encode_into(s, want, want.size());
    // (zero bytes that no longer fit are converted like any digit, in quadratic time)
    check_encode_into(s, want, s.size() > 8000 ? want.size() - shorter % 90 : shorter % (want.size() + 1));
    check_encode_into(s, want, want.size() + 1 + longer);
    {
        Exact in(s);
        char *p = 0;
        size_t r = coda_base58_encode_alloc(in.p, in.n, &p);
        CHECK(p, "encode-alloc", "encode_alloc(%s) gave no buffer", S(s));
        CHECK(strlen(p) == want.size() && want == p, "encode-alloc", "encode_alloc(%s) gave %s, expected %s", S(s), p, S(want));
        CHECK(r == want.size(), "encode-alloc-length", "encode_alloc(%s) reported length %zu of a text of %zu", S(s), r, want.size());
        free(p);
    }
    check_valid_decode(want, s, "roundtrip");
}

static void check_invalid(const string &t, size_t pos)
{
    {
        Exact in(t), out(cap(t));
        ssize_t r = coda_base58_decode(in.p, in.n, out.p);
        CHECK(r < 0, "decode-accepts", "decode(%s) returned %zd although character %zu is foreign", S(t), r, pos + 1);
        CHECK(r == -(ssize_t) pos - 1, "decode-position", "decode(%s) returned %zd, the first foreign character is at %zu", S(t), r, pos + 1);
    }
    {
        Exact in(t);
        char *p = (char *) 1;
        ssize_t r = coda_base58_decode_alloc(in.p, in.n, &p);
        CHECK(r == -(ssize_t) pos - 1, "decode-alloc-position", "decode_alloc(%s) returned %zd, the first foreign character is at %zu", S(t), r, pos + 1);
        CHECK(p == 0, "decode-alloc-buffer", "decode_alloc(%s) failed but left a buffer", S(t));
    }
    ev("invalid text rejected");
}

static void check_c02(const string &t)
{
    size_t pos = 0;
    while (pos < t.size() && digit(t[pos]) >= 0) ++pos;
    sig(hash(t)); if (!t.empty()) mark();
    if (want_sample()) sample("text %s: %s", S(t), pos < t.size() ? fmt("foreign at %zu", pos + 1).c_str() : S(ref_decode(t)));
    if (pos < t.size()) check_invalid(t, pos);
    else check_valid_decode(t, ref_decode(t), "decode-value");
}

static void check_oom(const string &t, int at)
{
    Exact in(t);
    char *p = (char *) 1;
    AllocFault f(at);
    ssize_t r = coda_base58_decode_alloc(in.p, in.n, &p);
    f.off();
    if (vp_alloc_seen < at) { free(p == (char *) 1 ? 0 : p); return; }
    CHECK(r < 0 && p == 0, "decode-alloc-oom", "decode_alloc(%s) with failing allocation %d returned %zd, buffer %p", S(t), at, r, (void *) p);
    ev("allocation failure reported");
}

static bool c02() { return opt.str("prop", "C01") == "C02"; }

void vp_case(In &in)
{
    if (!c02())
    {
        size_t z = in.chance(1, 3) ? in.below(12) : 0;
        if (opt.phase == "rand" && in.chance(1, 100)) { z = in.chance(1, 2) ? 200 + in.below(800) : (in.chance(1, 6) ? 65500 + in.below(4500) : in.below(3000)); ev("long runs of zero bytes"); }
        size_t n = in.len(opt.phase == "fuzz" ? 150 : in.chance(1, 128) && z < 1000 ? 3000 : z > 3000 ? 60 : 300);
        string s = string(z, '\0') + (in.chance(1, 6) ? in.bytes(n, string("\0\0\xff\x01\x80", 5)) : in.bytes(n));
        check_c01(s, in.u16(), in.below(40));
        return;
    }
    size_t z = in.chance(1, 3) ? in.below(12) : 0;
    if (opt.phase == "rand" && in.chance(1, 100)) { z = in.chance(1, 2) ? 200 + in.below(800) : (in.chance(1, 6) ? 65500 + in.below(4500) : in.below(3000)); ev("long runs of leading ones"); }
    size_t n = in.len(opt.phase == "fuzz" ? 150 : in.chance(1, 128) && z < 1000 ? 3000 : z > 3000 ? 60 : 300);
    string t = string(z, '1') + in.bytes(n, in.chance(1, 8) ? "z" : in.chance(1, 8) ? "1z2" : A);
    unsigned bad = in.below(4);
    for (unsigned i = 0; i < bad && !t.empty(); ++i)
    {
        // (a digit among thousands of ones would make the rest a huge number, in quadratic time)
        static const char foreign[] = "0OIl \n+/=_-@[`{\x7f";
        size_t at = in.chance(1, 3) ? (in.chance(1, 2) ? 0 : t.size() - 1) : in.below(t.size());
        t[at] = z > 3000 || in.chance(1, 2) ? foreign[in.below(sizeof foreign)] : (char) in.u8();
    }
    check_c02(t);
    if (in.chance(1, 8)) check_oom(t, 1 + in.below(2));
}

uint64_t vp_exh_count(bool th)
{
    if (!c02()) return 1 + 256 + 65536 + (th ? 1 << 24 : 0);
    return 256 + 1 + 256 + 65536 + 58u * 58 * 58 * (th ? 58 : 1);
}
void vp_exh(uint64_t i)
{
    if (!c02())
    {
        string s;
        if (i >= 1 + 256 + 65536) { i -= 1 + 256 + 65536; s = { char(i >> 16), char(i >> 8), char(i) }; }
        else if (i >= 1 + 256) { i -= 1 + 256; s = { char(i >> 8), char(i) }; }
        else if (i >= 1) s = { char(i - 1) };
        check_c01(s, i, i % 3);
        return;
    }
    if (i < 256)
    {
        CHECK(coda_isbase58((char) i) == (digit((unsigned char) i) >= 0), "isbase58", "isbase58(%d) is %d", (int) i, coda_isbase58((char) i));
        ev("membership predicate checked");
        return;
    }
    i -= 256;
    if (i == 0) { check_c02(""); return; }
    i -= 1;
    if (i < 256) { check_c02(string(1, (char) i)); return; }
    i -= 256;
    if (i < 65536) { check_c02(string{ char(i >> 8), char(i) }); return; }
    i -= 65536;
    string t;
    for (int k = 0; k < (opt.thorough ? 4 : 3); ++k) { t += A[i % 58]; i /= 58; }
    check_c02(t);
}

// texts and byte strings of a size where 16-bit counts overflow; the number is compared modulo two primes, which takes linear time
static uint64_t residue(const string &digits, unsigned base, uint64_t m)
{
    unsigned __int128 v = 0;
    for (char c : digits) v = (v * base + (base == 58 ? (unsigned) digit((unsigned char) c) : (unsigned char) c)) % m;
    return (uint64_t) v;
}
static void same_number(const string &bytes, const string &text, const char *key)
{
    for (uint64_t m : { 2305843009213693951ull, 18446744073709551557ull })
        CHECK(residue(bytes, 256, m) == residue(text, 58, m), key, "%zu bytes and their text of %zu digits are different numbers", bytes.size(), text.size());
}
void vp_custom()
{
    Rng r(mix(opt.seed, opt.shard));
    size_t n = 47500 + r.below(500);
    string s; while (s.size() < n) s += (char) (r.below(255) + 1);
    string t; while (t.size() < 90000) t += A[1 + r.below(57)];
    if (opt.shard & 1)
    {
        t.resize(89600 + r.below(400));
        Exact in(t); char *p = (char *) 1;
        ssize_t k = coda_base58_decode_alloc(in.p, in.n, &p);
        size_t most = t.size() * 732583 / 1000000 + 2;
        CHECK(k > 0 && (size_t) k <= most && (size_t) k + 2 >= t.size() * 732 / 1000 && p && p[0], c02() ? "decode-value" : "roundtrip", "a text of %zu digits decodes to %zd bytes", t.size(), k);
        same_number(string(p, k), t, c02() ? "decode-value" : "roundtrip");
        free(p); ev("texts of over 89 600 digits decoded");
    }
    else
    {
        Exact in(s); char *p = 0;
        size_t k = coda_base58_encode_alloc(in.p, in.n, &p);
        CHECK(p && k == strlen(p) && k > s.size() && p[0] != '1', "encode-alloc", "%zu bytes are encoded as %zu digits", s.size(), k);
        for (size_t i = 0; i < k; ++i) CHECK(digit((unsigned char) p[i]) >= 0, "encode-alloc", "%zu bytes are encoded with a foreign character", s.size());
        same_number(s, string(p, k), "encode-alloc");
        free(p); ev("byte strings of over 47 500 bytes encoded");
    }
    evaluated(1); distinct(hash(opt.shard & 1 ? t : s));
}
