// C08 absolute URL normal form, C09 relative resolution and value semantics.
#include "common.hpp"
#include "longtext.hpp"
#include <coda/url_parser.hpp>
#include <memory>
using std::string; using std::vector;
using namespace vp;

static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool ieq(const string &a, const string &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (lo(a[i]) != lo(b[i])) return false;
    return true;
}
static bool pre(const string &s, const char *p) { size_t n = strlen(p); return s.size() >= n && ieq(s.substr(0, n), p); }
static bool hostchar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.' || c == ':' || c == '-' || c == '_'; }

struct Url { string val, dom; bool empty() const { return val.empty(); } };

static string norm_path(const string &path, unsigned flags)   // begins with '/'
{
    vector<string> seg; string cur; bool dir = false;
    auto end = [&] {
        dir = false;
        if (cur.empty() || cur == ".") dir = true;
        else if (cur == "..") { dir = true; if (!seg.empty()) seg.pop_back(); }
        else seg.push_back(cur);
        cur.clear();
    };
    for (size_t i = 1; i < path.size(); ++i) { if (path[i] == '/') end(); else cur += path[i]; }
    end();
    string r;
    for (auto &s : seg) r += "/" + s;
    if (seg.empty()) return "/";
    if (dir && (flags & CODA_URL_FETCHABLE)) r += "/";
    return r;
}
static string norm_tail(const string &t, unsigned flags)
{
    size_t q = t.find('?');
    return q == string::npos ? norm_path(t, flags) : norm_path(t.substr(0, q), flags) + t.substr(q);
}
static Url m_abs(string u, unsigned flags)
{
    Url r;
    if (u.empty()) return r;
    string scheme = "http://";
    if (pre(u, "https://")) { scheme = u.substr(0, 8); u.erase(0, 8); }
    else if (pre(u, "http://")) { scheme = u.substr(0, 7); u.erase(0, 7); }
    u = u.substr(0, u.find('#'));
    size_t n = 0;
    while (n < u.size() && u[n] != '/' && hostchar(u[n])) ++n;
    string host = u.substr(0, n), tail = u.substr(n);
    if (tail.empty() || tail[0] != '/') tail = "/" + tail;
    for (auto &c : host) c = lo(c);
    while (!host.empty() && host[0] == '.') host.erase(0, 1);
    while (!host.empty() && host.back() == '.') host.pop_back();
    r.val = scheme + host + norm_tail(tail, flags);
    // last two labels
    r.dom = host;
    if (host.size() > 1)
    {
        size_t a = host.size() >= 2 ? host.rfind('.', host.size() - 2) : string::npos;
        if (a != string::npos && a >= 2)
        {
            size_t b = host.rfind('.', a - 2);
            if (b != string::npos) r.dom = host.substr(b + 1);
        }
    }
    return r;
}
static Url m_rel(string u, unsigned flags, const Url &p)
{
    Url r;
    if (u.empty() || p.empty()) return r;
    if (pre(u, "http://") || pre(u, "https://"))
    {
        r = m_abs(u, flags);
        if ((flags & CODA_URL_SUBDOMAIN) && !ieq(string(r.dom.c_str()), string(p.dom.c_str()))) return Url();
        return r;
    }
    if (pre(u, "mailto:") || pre(u, "javascript:") || u[0] == '#') return r;
    u = u.substr(0, u.find('#'));
    size_t sch = pre(p.val, "https://") ? 8 : 7, root = p.val.find('/', sch);
    if (root == string::npos) return r;
    string base;
    if (u[0] == '/') base = p.val.substr(0, root);
    else { string q = p.val.substr(0, p.val.find('?')); base = q.substr(0, q.rfind('/') + 1); }
    r.val = p.val.substr(0, root) + norm_tail((base + u).substr(root), flags);
    r.dom = p.dom;
    return r;
}

static void same(const coda_url &g, const Url &w, const char *key, const string &what)
{
    CHECK(g.empty() == w.empty(), key, "%s: object is %s, expected %s", what.c_str(), g.empty() ? "empty" : S(string(g.get_url())), S(w.val));
    CHECK(g.get_url_len() == w.val.size() && g.get_domain_len() == w.dom.size(), "lengths", "%s: lengths %zu and %zu, url %s, expected %s (domain %s)",
          what.c_str(), (size_t) g.get_url_len(), (size_t) g.get_domain_len(), S(string(g.get_url())), S(w.val), S(w.dom));
    CHECK(string(g.get_url(), w.val.size() + 1) == w.val + '\0', key, "%s: url is %s, expected %s", what.c_str(), S(string(g.get_url(), w.val.size())), S(w.val));
    CHECK(string(g.get_domain(), w.dom.size() + 1) == w.dom + '\0', "domain", "%s: domain is %s, expected %s", what.c_str(), S(string(g.get_domain(), w.dom.size())), S(w.dom));
}

static int prop;
void vp_init() { prop = atoi(opt.str("prop", "C08").c_str() + 1); }

static void c08(const string &s, unsigned flags)
{
    sig(hash(s)); sig(flags); if (!s.empty()) mark();
    Url w = m_abs(s, flags);
    Exact in(s);
    coda_url u;
    int r = u.create_absolute(in.p, in.n, flags);
    string what = fmt("create_absolute(%s, %u)", show(s).c_str(), flags);
    CHECK(r == (s.empty() ? -1 : 0), "return", "%s returned %d", what.c_str(), r);
    same(u, w, "absolute", what);
    CHECK(in.str() == s, "input", "%s changed its input", what.c_str());
    if (want_sample()) sample("%s flags %u -> %s domain %s", S(s), flags, S(w.val), S(w.dom));
    ev("absolute URLs created");
    if (s.empty()) { ev("empty input refused"); return; }
    coda_url v;
    Exact again(string(u.get_url(), u.get_url_len()));
    CHECK(v.create_absolute(again.p, again.n, flags) == 0, "idempotent", "%s: creating again from %s failed", what.c_str(), S(w.val));
    same(v, w, "idempotent", what + " again");
    // over a non-empty object, and from nothing
    switch (s.size() % 3)
    {
    case 0: CHECK(u.create_absolute(in.p, in.n, flags) == -1, "over-nonempty", "%s over a non-empty object succeeded", what.c_str()); break;
    case 1: CHECK(u.create_absolute(0, 5, flags) == -1, "from-null", "creation from no text succeeded"); break;
    default: CHECK(u.create_absolute(in.p, 0, flags) == -1, "from-empty", "creation from an empty text succeeded"); break;
    }
    same(u, Url(), "emptied", what + " then a refused creation");
    CHECK(u.create_absolute(in.p, in.n, flags) == 0, "reuse", "%s on an emptied object failed", what.c_str());
    same(u, w, "reuse", what + " on an emptied object");
    ev("refused creations");
}

static string piece(In &in)
{
    static const char *const p[] = { "/", "/..", "/.", "//", "/a", "/b.c", "..", ".", "a", "www.Example.COM", "?", "#", "?x=/../y", "Q", ":80", "host",
                                     "/../", "/./", "x.y.z", "-", "_", " ", "%41", "\xd0\xb0", "HTTP://", "https://", "http:/", "..a", "...", "a..b", "&", "/a/b/c/" };
    if (in.chance(1, 12)) return in.bytes(in.below(4));
    return in.pick(p);
}
static string gen_url(In &in)
{
    static const char *const sch[] = { "", "", "http://", "https://", "HTTP://", "HttpS://", "http:", "http", "https:/", "ftp://", "htt" };
    string s = in.pick(sch);
    unsigned n = in.below(in.chance(1, 40) ? 200 : 10);
    if (in.chance(1, 2)) { static const char *const h[] = { "a.b.c", "Example.Com", ".x.", "www.site.org:8080", "h", "..q..", "A_b-c.D" }; s += in.pick(h); }
    for (unsigned i = 0; i < n; ++i) s += piece(in);
    if (in.chance(1, 20)) { static const unsigned W[] = { 31, 63, 127, 255, 300, 1023 }; s += string(W[in.below(6)] + in.below(3), "hX"[in.below(2)]) + in.pick({ "", ".com", "/", ".a.b/c" }); }
    if (in.chance(1, 100)) s += string(in.len(5000), 'x') + piece(in);
    if (in.chance(1, 1500) && opt.phase != "fuzz")
    {
        // parts longer than 64 KiB, by a little more or less
        string big(65530 + in.below(40), "xY./"[in.below(4)]); size_t at = in.below(s.size() + 1);
        if (big[0] == '/' || big[0] == '.') for (size_t k = 0; k < big.size(); k += 1 + in.below(900)) big[k] = 'q';
        s.insert(at, big); for (unsigned k = in.below(4); k--; ) s.insert(in.below(s.size() + 1), piece(in));
        ev("urls with parts of more than 64 KiB");
    }
    if (in.chance(1, 40)) s.insert(in.below(s.size() + 1), 1, '\0');
    if (in.chance(1, 6)) s.resize(s.size() - std::min<size_t>(s.size(), in.below(8)));
    return s;
}
// an absolute reference to the parent's domain or to one that differs a little from it
static string near_ref(In &in, const Url &p)
{
    string d = p.dom;
    switch (in.below(6))
    {
    case 0: break;
    case 1: if (!d.empty()) { size_t at = in.chance(1, 2) ? d.size() - 1 : in.below((uint32_t) d.size()); d[at] = d[at] == 'a' ? 'b' : 'a'; } break;
    case 2: if (!d.empty()) d.resize(d.size() - 1); break;
    case 3: d += in.pick({ "a", ".a", ":80", "." }); break;
    case 4: for (auto &c : d) if (in.chance(1, 2)) c = (char) toupper(c); break;
    default: d = in.pick({ "www.", "a", "." }) + d; break;
    }
    return in.pick({ "http://", "https://", "HTTP://" }) + d + in.pick({ "", "/", "/x/../y", "?q", "#f" });
}
static string gen_ref(In &in)
{
    static const char *const r[] = { "mailto:x@y", "javascript:void", "MAILTO:", "JavaScript:1", "#frag", "mailto", "javascript", "mail", "/", "?q=1", ".", "..", "../..", "/..",
                                     "//other/x", "a#b", "x?y#z", "" };
    if (in.chance(1, 3)) return in.pick(r);
    if (in.chance(1, 3)) return gen_url(in);
    string s; unsigned n = in.below(8);
    for (unsigned i = 0; i < n; ++i) s += piece(in);
    return s;
}

static void c09(In &in)
{
    // a history over a few objects, compared with a model after every step
    const int N = 4;
    std::unique_ptr<coda_url> o[N]; Url m[N]; string text[N];
    for (int i = 0; i < N; ++i) o[i].reset(new coda_url);
    unsigned steps = 2 + in.below(10);
    string trace;
    for (unsigned k = 0; k < steps; ++k)
    {
        int a = in.below(N), b = in.below(N);
        unsigned flags = in.below(4);
        string what;
        switch (in.below(8))
        {
        case 0: case 1:
        {
            string s = gen_url(in); Exact t(s);
            if (in.chance(2, 3)) { o[a].reset(new coda_url); m[a] = Url(); }
            bool over = !m[a].empty();
            int r = o[a]->create_absolute(t.p, t.n, flags);
            m[a] = over ? Url() : m_abs(s, flags);
            what = fmt("%d=absolute(%s,%u)", a, show(s, 60).c_str(), flags);
            CHECK(r == (m[a].empty() ? -1 : 0), "return", "%s %s returned %d", trace.c_str(), what.c_str(), r);
            ev("absolute creations");
            break;
        }
        case 2: case 3: case 4:
        {
            string s = gen_ref(in);
            if (m[b].empty() && in.chance(3, 4)) for (int i = 0; i < N; ++i) if (!m[i].empty()) b = i;
            if (a != b && in.chance(4, 5)) { o[a].reset(new coda_url); m[a] = Url(); }
            bool over = !m[a].empty();
            bool null = in.chance(1, 50);
            Url p = m[b];
            if (!p.empty() && in.chance(1, 5)) { s = near_ref(in, p); if (in.chance(2, 3)) flags |= 2; ev("references to the same or a similar domain"); }
            Exact t(s);
            int r = o[a]->create_relative(null ? 0 : t.p, t.n, flags, *o[b]);
            m[a] = over || null ? Url() : m_rel(s, flags, p);
            what = fmt("%d=relative(%s,%u,parent %d %s)", a, null ? "NULL" : show(s, 60).c_str(), flags, b, show(p.val, 60).c_str());
            CHECK(r == (m[a].empty() ? -1 : 0), "return", "%s %s returned %d", trace.c_str(), what.c_str(), r);
            ev(m[a].empty() ? "references refused" : "references resolved");
            if (want_sample() && !m[a].empty()) sample("%s against %s flags %u -> %s domain %s", S(s), S(p.val), flags, S(m[a].val), S(m[a].dom));
            break;
        }
        case 5:
            *o[a] = *o[b]; m[a] = Url(m[b]);
            what = fmt("%d=%d", a, b);
            ev(a == b ? "self-assignments" : "assignments");
            break;
        case 6:
            if (a != b) { o[a].reset(new coda_url(*o[b])); m[a] = m[b]; what = fmt("%d=copy(%d)", a, b); ev("copies"); }
            break;
        default:
            o[a].reset(); o[a].reset(new coda_url); m[a] = Url();
            what = fmt("%d=empty", a);
            break;
        }
        sig(hash(what));
        trace += what + "; ";
        for (int i = 0; i < N; ++i) same(*o[i], m[i], "value", fmt("object %d after %s", i, trace.substr(trace.size() > 900 ? trace.size() - 900 : 0).c_str()));
    }
    mark();
}

static Url pair_parent[8];
void vp_case(In &in)
{
    if (prop == 8) c08(in.chance(1, 12) ? in.bytes(in.len(300)) : gen_url(in), in.below(2) | (in.chance(1, 8) ? 2 : 0));
    else c09(in);
}

// exhaustive: path and host shapes
static const char *const TOK[] = { "/", ".", "..", "a", "?", "#", "B.c", "/../", "h.x.y" };
static const int NT = 9;
static uint64_t cnt(unsigned n) { uint64_t s = 0, e = 1; for (unsigned i = 0; i <= n; ++i) { s += e; e *= NT; } return s; }
static string nth(uint64_t i) { size_t n = 0; uint64_t e = 1; while (i >= e) { i -= e; e *= NT; ++n; } string s; while (n--) { s += TOK[i % NT]; i /= NT; } return s; }
uint64_t vp_exh_count(bool th) { return prop == 8 ? 512 + cnt(th ? 6 : 4) * 3 * 2 : cnt(th ? 5 : 4) * 4 * 2; }
void vp_exh(uint64_t i)
{
    if (prop == 8)
    {
        if (i < 512)
        {
            // every byte in host and path, and every prefix of the schemes
            char c = (char) (i & 255);
            c08(i < 256 ? string("ab") + c + "de/f" : string("http://x.y/a") + c + "b/../" + c, i & 1);
            string sch = "https://HTTP://";
            c08(sch.substr(i % 8, i % 9), 0); c08(sch.substr(8, i % 8), 0);
            return;
        }
        i -= 512;
        static const char *const s[] = { "", "http://", "HTTPS://" };
        unsigned f = i % 2; i /= 2;
        const char *sc = s[i % 3]; i /= 3;
        c08(sc + nth(i), f);
        return;
    }
    static const char *const par[] = { "h.x.y", "https://Q/a/b/c?d=/e", "HTTPS://z.h.x.y/a/", "http://a.b/p/q/" };
    unsigned f = i % 2; i /= 2;
    string ps = par[i % 4], s = nth(i / 4);
    coda_url p, u;
    HCHECK(p.create_absolute(ps.data(), ps.size(), 1) == 0, "parent");
    Url mp = m_abs(ps, 1), w = m_rel(s, f, mp);
    Exact t(s);
    int r = u.create_relative(t.p, t.n, f, p);
    CHECK(r == (w.empty() ? -1 : 0), "return", "relative(%s) against %s returned %d", S(s), S(mp.val), r);
    same(u, w, "relative", fmt("relative(%s, %u) against %s", show(s).c_str(), f, show(mp.val).c_str()));
    same(p, mp, "parent", "the parent");
    sig(hash(s)); sig(hash(ps)); sig(f); if (!s.empty()) mark();
    ev(w.empty() ? "references refused" : "references resolved");
}

// ---- texts whose length does not fit in 32 bits ------------------------------------------------------------------------------
static bool is_long(const char *p, size_t n, const string &head, char fill, const string &tail)
{
    if (n < head.size() + tail.size() || memcmp(p, head.data(), head.size()) || memcmp(p + n - tail.size(), tail.data(), tail.size()) || p[n]) return false;
    const char *m = p + head.size(); size_t k = n - head.size() - tail.size();
    return !k || (*m == fill && !memcmp(m, m + 1, k - 1));
}
static void same_long(const coda_url &u, size_t n, const string &head, char fill, const string &tail, size_t dn, const string &dhead, const string &dtail, const char *key, const char *what)
{
    CHECK(u.get_url_len() == n, "lengths", "%s: the length is %zu, expected %zu", what, (size_t) u.get_url_len(), n);
    CHECK(is_long(u.get_url(), n, head, fill, tail), key, "%s: the url is not the one expected", what);
    CHECK(u.get_domain_len() == dn, "lengths", "%s: the length of the domain is %zu, expected %zu", what, (size_t) u.get_domain_len(), dn);
    CHECK(is_long(u.get_domain(), dn, dhead, fill, dtail), "domain", "%s: the domain is not the one expected", what);
}
void vp_custom()
{
    const size_t G = (size_t) 1 << 30; Rng r(opt.seed); const string h = "http://h.example/", D = "h.example";
    for (unsigned k = opt.shard; k < 3; k += opt.shards)
    {
        if (prop == 9 && k == 0 && !opt.thorough) continue;
        if (!memory(12)) { evaluated(1); distinct(k); continue; }
        size_t x = 16 + r.below(1000); const char *key = prop == 8 ? "absolute" : "relative";
        if (prop == 8 && k == 0)
        {
            Long l("HTTP://H.Example/", "a", 4 * G + x, ""); coda_url u;
            CHECK(!u.create_absolute(l.p, l.n, 0), "return", "a url of %zu bytes is refused", l.n);
            same_long(u, l.n, "HTTP://h.example/", 'a', "", 9, D, "", key, "a url of more than 4 GiB");
        }
        else if (prop == 8 && k == 1)
        {
            Long l("http://h.example/p#", "f", 4 * G + x, ""); coda_url u;
            CHECK(!u.create_absolute(l.p, l.n, 0), "return", "a url of %zu bytes is refused", l.n);
            same_long(u, 18, "http://h.example/p", 0, "", 9, D, "", key, "a url with a fragment of more than 4 GiB");
        }
        else if (prop == 8)
        {
            Long l("http://", "a", 2 * G + x, ".COM/"); coda_url u;
            CHECK(!u.create_absolute(l.p, l.n, 0), "return", "a url of %zu bytes is refused", l.n);
            same_long(u, l.n, "http://", 'a', ".com/", l.n - 8, "", ".com", key, "a url with a host of more than 2 GiB");
        }
        else if (k == 0)
        {
            Long l(h, "a", 4 * G + x, "/x?q"); coda_url u, v;
            CHECK(!u.create_absolute(l.p, l.n, 0), "return", "a url of %zu bytes is refused", l.n);
            CHECK(!v.create_relative("y", 1, 0, u), "return", "a reference to a parent of %zu bytes is refused", l.n);
            same_long(v, l.n - 2, h, 'a', "/y", 9, D, "", key, "a reference to a parent of more than 4 GiB");
            coda_url w; CHECK(!w.create_relative("/y", 2, 0, u), "return", "a reference to a parent of %zu bytes is refused", l.n);
            same_long(w, h.size() + 1, h + "y", 0, "", 9, D, "", key, "an absolute path with a parent of more than 4 GiB");
        }
        else if (k == 1)
        {
            Long l("y#", "f", 4 * G + x, ""); coda_url u, v;
            CHECK(!u.create_absolute(h.data(), h.size(), 0), "return", "a url is refused");
            CHECK(!v.create_relative(l.p, l.n, 0, u), "return", "a reference of %zu bytes is refused", l.n);
            same_long(v, h.size() + 1, h + "y", 0, "", 9, D, "", key, "a reference with a fragment of more than 4 GiB");
        }
        else
        {
            Long l("http://", "a", 2 * G + x, ".COM/"); coda_url u; size_t n = l.n - 8;
            CHECK(!u.create_absolute(l.p, l.n, 0), "return", "a url of %zu bytes is refused", l.n);
            coda_url v(u);
            same_long(v, l.n, "http://", 'a', ".com/", n, "", ".com", "copy", "a copy of a url with a host of more than 2 GiB");
            v = coda_url(); coda_url w; CHECK(!w.create_absolute("b", 1, 0), "return", "a url is refused"); w = u; u = coda_url();
            same_long(w, l.n, "http://", 'a', ".com/", n, "", ".com", "copy", "an assigned url with a host of more than 2 GiB");
        }
        evaluated(1); distinct(k); ev("texts of more than 2 or 4 GiB");
    }
}
