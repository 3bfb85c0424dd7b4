// Functions and objects that share nothing must give every thread the result they give when called alone: the same requests are
// answered first by one thread, then by several at once in other orders (also under the race detector), and compared.
#include "common.hpp"
#include <coda/base58.h>
#include <coda/base64.h>
#include <coda/web64.h>
#include <coda/url.hpp>
#include <coda/url_parser.hpp>
#include <coda/string.h>
#include <coda/string.hpp>
#include <coda/easy_parsing.hpp>
#include <coda/stringstorage.h>
#include <coda/txml.hpp>
#include <coda/gmtime.h>
#include <coda/vietnam.hpp>
#include <coda/socket.h>
#include <coda/cache.hpp>
#include <coda/shm_pool.hpp>
#include <coda/log_array.hpp>
#include <coda/system.h>
#include <pthread.h>
#include <thread>
#include <atomic>
#include <memory>
using namespace vp;
using std::string;

typedef uint64_t (*Answer)(Rng &);

static string bytes(Rng &r, size_t max, const char *from = 0)
{
    size_t n = r.chance(1, 8) ? r.below(max + 1) : r.below(std::min<size_t>(max, 24) + 1); string s;
    size_t k = from ? strlen(from) : 0;
    while (n--) s += from ? from[r.below(k)] : (char) r.next();
    return s;
}
struct Dig
{
    uint64_t h; Dig(): h(1) { }
    Dig &operator<<(uint64_t v) { h = mix(h, v); return *this; }
    Dig &operator<<(const string &s) { h = mix(h, hash(s)); return *this; }
};
static string pad(const char *p, size_t n) { return string(p, n); }

static uint64_t b58(Rng &r)
{
    Dig d; string s = bytes(r, 300); if (r.chance(1, 4)) s = string(r.below(5), '\0') + s;
    std::vector<char> o(s.size() * 2 + 8, 'x'); size_t room = r.below(o.size() + 1);
    coda_base58_encode(s.data(), s.size(), o.data(), room); d << pad(o.data(), o.size());
    char *p = 0; size_t n = coda_base58_encode_alloc(s.data(), s.size(), &p); string t(p, n); free(p); d << t;
    char *q = 0; ssize_t m = coda_base58_decode_alloc(t.data(), t.size(), &q); if (m >= 0) d << string(q, (size_t) m); free(q);
    string u = bytes(r, 200, "123abcXYZz"); if (r.chance(1, 3)) u.insert(r.below(u.size() + 1), 1, "0OIl+"[r.below(5)]);
    m = coda_base58_decode_alloc(u.data(), u.size(), &q); d << (uint64_t) m; if (m >= 0) { d << string(q, (size_t) m); free(q); }
    std::vector<char> w(u.size() + 1, 'x'); m = coda_base58_decode(u.data(), u.size(), w.data()); d << (uint64_t) m; if (m >= 0) d << pad(w.data(), (size_t) m);
    for (int c = 0; c < 256; c += 7) d << coda_isbase58((char) c);
    return d.h;
}
static uint64_t b64(Rng &r)
{
    Dig d; string s = bytes(r, 3000); std::vector<char> o(s.size() * 2 + 8, 'x'); size_t room = r.below(o.size() + 1);
    coda_base64_encode(s.data(), s.size(), o.data(), room); d << pad(o.data(), o.size());
    char *p = 0; size_t n = coda_base64_encode_alloc(s.data(), s.size(), &p); string t(p, n); free(p); d << t;
    if (t.size() && r.chance(1, 3)) t[r.below(t.size())] = "=!A"[r.below(3)];
    size_t got = 0; p = 0; bool ok = coda_base64_decode_alloc(t.data(), t.size(), &p, &got); d << ok; if (ok) { d << string(p, got); free(p); }
    got = r.below(s.size() + 3); std::vector<char> w(got + 1, 'x'); ok = coda_base64_decode(t.data(), t.size(), w.data(), &got); d << ok << got << pad(w.data(), got);
    return d.h;
}
static uint64_t w64(Rng &r)
{
    Dig d; string s = bytes(r, 3000); std::vector<char> o(s.size() * 2 + 8, 'x'); size_t room = r.below(o.size() + 1);
    web64_encode(s.data(), s.size(), o.data(), room); d << pad(o.data(), o.size());
    std::vector<char> e((s.size() + 2) / 3 * 4 + 1); web64_encode(s.data(), s.size(), e.data(), e.size()); string t(e.data(), e.size() - 1); d << t;
    if (t.size() && r.chance(1, 3)) t[r.below(t.size())] = ".!A"[r.below(3)];
    size_t got = r.below(s.size() + 3); std::vector<char> w(got + 1, 'x'); bool ok = web64_decode(t.data(), t.size(), w.data(), &got); d << ok << got << pad(w.data(), got);
    return d.h;
}
static uint64_t urlcode(Rng &r)
{
    Dig d; string s = bytes(r, 2000, r.chance(1, 2) ? "%0aFg+ \xe3~-" : 0); std::vector<char> o(s.size() * 3 + 4, 'x');
    size_t n = coda_urlenc(o.data(), s.data(), s.size()); d << n << pad(o.data(), o.size());
    d << coda_urlenc(s) << coda_urlenc_noplus(s) << coda_urldec(s) << coda_urlenc(s.data(), s.size()) << coda_urlenc_noplus(s.data(), s.size()) << coda_urldec(s.data(), s.size());
    n = coda_urldec(o.data(), s.data(), s.size()); d << n << pad(o.data(), n + 1);
    return d.h;
}
static uint64_t urlesc(Rng &r)
{
    Dig d; string s = bytes(r, 1000, r.chance(2, 3) ? "%u4dx\\+\xd0" "0aF" : "abc %+/\xe3z"); size_t sz = r.below(s.size() * 3 + 4); std::vector<char> o(sz + 1, 'x');
    coda_url_escape(s.c_str(), o.data(), sz); if (sz) d << string(o.data()); d << (uint64_t) o[sz];
    coda_url_unescape(s.c_str(), o.data(), sz); if (sz) d << string(o.data());
    coda_url_preunescape(s.c_str(), o.data(), sz); if (sz) d << string(o.data());
    return d.h;
}
static uint64_t query(Rng &r)
{
    Dig d; string s = bytes(r, 1500, "=&a:\r\nbc"); std::map<string, string> a, b, c, e;
    a["a"] = c["a"] = "before";
    d << (uint64_t) coda_get_params_buf(a, s.data(), s.size()) << (uint64_t) coda_get_params(b, s.c_str()) << (uint64_t) coda_get_header_buf(c, s.data(), s.size()) << (uint64_t) coda_get_header(e, s.c_str());
    for (auto *m : { &a, &b, &c, &e }) { d << m->size(); for (auto &x : *m) d << x.first << x.second; }
    return d.h;
}
static void show(Dig &d, const coda_url &u) { d << string(u.get_url()) << string(u.get_domain()) << u.get_url_len() << u.get_domain_len() << u.empty(); }
static string anyurl(Rng &r)
{
    static const char *const tok[] = { "/", ".", "..", "a", "?", "#", "B.c", "/../", "h.x.y", "/./", "//", "=", "Q", ":80" };
    string s = r.chance(1, 2) ? "http://" : r.chance(1, 2) ? "HTTPS://" : "";
    if (r.chance(2, 3)) s += "WWW.Example.org";
    for (size_t n = r.below(r.chance(1, 6) ? 60 : 10); n--; ) s += tok[r.below(14)];
    return s;
}
static uint64_t url(Rng &r)
{
    Dig d; coda_url a; string s = anyurl(r), t = anyurl(r); uint32_t f = (uint32_t) r.below(4);
    d << (uint64_t) a.create_absolute(s.data(), s.size(), f); show(d, a);
    coda_url b; d << (uint64_t) b.create_relative(t.data(), t.size(), f, a); show(d, b);
    coda_url c(a); show(d, c); c = b; show(d, c); c = c; show(d, c); a = c; show(d, a);
    return d.h;
}
static uint64_t search(Rng &r)
{
    Dig d; string s = bytes(r, 500, "aAbB\xc3" "c"), n = bytes(r, 4, "aAbB\xc3"), t = s; char c = "aAbB\xc3z"[r.below(6)]; const char *b = s.data(); size_t l = s.size();
    if (l && r.chance(1, 3)) t[r.below(l)] = '\0';
    auto at = [&](const char *p) { d << (p ? (uint64_t) (p - t.data()) : ~0ull); };
    auto as = [&](const char *p) { d << (p ? (uint64_t) (p - b) : ~0ull); };
    const char *x = t.data();
    at(coda_strnchr(x, c, l)); at(coda_strxchr(x, c, l)); at(coda_revnchr(x, c, l)); at(coda_revxchr(x, c, l)); as(coda_stristr(b, n.c_str())); at(coda_strnstr(x, n.c_str(), l)); at(coda_strxstr(x, n.c_str(), l));
    d << coda_strnchp(x, c, l) << coda_strxchp(x, c, l) << coda_strispn(b, n.c_str()) << coda_strnspn(x, n.c_str(), l) << coda_strxspn(x, n.c_str(), l) << coda_revnspn(x, n.c_str(), l) << coda_revxspn(x, n.c_str(), l)
      << coda_strispc(b, n.c_str()) << coda_strnspc(x, n.c_str(), l) << coda_strxspc(x, n.c_str(), l) << coda_revnspc(x, n.c_str(), l) << coda_revxspc(x, n.c_str(), l);
    return d.h;
}
static uint64_t tokens(Rng &r)
{
    Dig d; string s = bytes(r, 600, ",a 7-8;\t\nb"), del = bytes(r, 3, ", ;a"); bool ig = r.chance(1, 2);
    for (auto &x : coda_split_string(s.c_str(), del.c_str(), ig)) d << x;
    for (auto &x : coda_split_string(s.data(), s.size(), del.c_str(), ig)) d << x;
    std::set<string> ss; coda_get_stringset(s.c_str(), ss); for (auto &x : ss) d << x;
    std::set<uint64_t> us; coda_get_uint64set(s.c_str(), us); for (auto x : us) d << x;
    string n = bytes(r, 18, "0123456789"); if (r.chance(1, 3)) n = "-" + n; d << (uint64_t) coda_atoi(n.data(), n.size()) << coda_atou(n.data(), n.size());
    const char *b = s.c_str(), *e = 0; while (get_next_word(b, e)) { d << string(b, (size_t) (e - b)); b = e; }
    return d.h;
}
static uint64_t format(Rng &r)
{
    Dig d; string a = bytes(r, r.chance(1, 10) ? 70000 : 500, "abcdefgh"); if (r.chance(1, 30)) a += string(32760 + r.below(16), 'y'); int n = (int) r.next(); double f = (double) (r.next() % 100000) / 7;
    d << coda_strprintf("%s|%d|%.3f", a.c_str(), n, f);
    string o = "start "; d << (uint64_t) coda_strappend(o, "%s%d", a.c_str(), n) << o;
    d << (uint64_t) coda_strnappend(o, r.below(a.size() + 40), "%d %s", n, a.c_str()) << o;
    d << (uint64_t) coda_strnprintf(o, r.below(o.size() + 2), r.below(a.size() + 40), "%s.%d", a.c_str(), n) << o;
    return d.h;
}
static uint64_t storage(Rng &r)
{
    Dig d; string_storage ss; size_t uds = r.below(40); string_storage_init(&ss, uds); std::map<string, void *> m; string base = bytes(r, 60, "pqr");
    for (size_t n = 1 + r.below(60); n--; )
    {
        string s = base.substr(0, r.below(base.size() + 1)) + bytes(r, 12, "stu"); void *p = string_storage_add(&ss, s.c_str());
        bool is = m.count(s); if (!is) { m[s] = p; if (p && uds) { d << ((uint8_t *) p)[uds - 1]; memset(p, (int) (s.size() + 1), uds); } } else d << (m[s] == p);
    }
    struct L { std::map<string, string> m; size_t uds; static void cb(void *u, const char *k, void *p) { L *l = (L *) u; l->m[k] += string((char *) p, l->uds); } } l; l.uds = uds;
    string_storage_enumerate(&ss, L::cb, &l); for (auto &x : l.m) d << x.first << x.second;
    string_storage_free(&ss);
    return d.h;
}
struct Item: coda::txml_determination_object { string name; uint32_t n; Item(): n(0) { } void determine(coda::txml_parser *p) { txml_member(p, name) || txml_member(p, n); } };
struct Conf: coda::txml_determination_object
{
    string s; uint64_t u; double f; bool b; std::list<string> l; std::vector<Item> v; Conf(): u(0), f(0), b(false) { }
    struct Root: coda::txml_determination_object { Conf *c; void determine(coda::txml_parser *p) { p->determineMember("root", *c); } };
    void determine(coda::txml_parser *p) { txml_member(p, s) || txml_member(p, u) || txml_member(p, f) || txml_member(p, b) || txml_member(p, l) || txml_member(p, v); }
};
static uint64_t xml(Rng &r)
{
    Dig d; Conf c; Conf::Root root; root.c = &c; string t = "<root u='" + fmt("%llu", (unsigned long long) r.next()) + "'>";
    t += "<s>" + bytes(r, 9000, "abcd ") + "&amp;</s><f>" + fmt("%.6f", (double) r.below(1000000) / 64) + "</f><b>" + (r.chance(1, 2) ? "on" : "off") + "</b>";
    for (size_t n = r.below(6); n--; ) t += "<l>" + bytes(r, 30, "xyz") + "</l>";
    for (size_t n = r.below(6); n--; ) t += "<v name='" + bytes(r, 30, "xyz") + "'><n>" + fmt("%u", (unsigned) r.next()) + "</n></v>";
    t += r.chance(1, 6) ? "</rot>" : "</root>"; bool file = r.chance(1, 4);
    try
    {
        if (file)
        {
            static std::atomic<unsigned> seq(0); string f = fmt("x%u.xml", seq.fetch_add(1, std::memory_order_relaxed)); FILE *fp = fopen(f.c_str(), "w"); fwrite(t.data(), 1, t.size(), fp); fclose(fp);
            struct U { string f; ~U() { unlink(f.c_str()); } } u = { f };
            root.load_from_file(f.c_str());
        }
        else root.load_from_string(t.data(), t.size());
    }
    catch (const std::exception &e) { string w = e.what(); size_t k = w.find("): "); d << (file && k != string::npos ? w.substr(k) : w); }
    d << c.s << c.u << fmt("%.6f", c.f) << c.b; for (auto &x : c.l) d << x; for (auto &x : c.v) d << x.name << x.n;
    return d.h;
}
static uint64_t calendar(Rng &r)
{
    Dig d; for (int k = 0; k < 8; ++k) { time_t t = (time_t) (r.next() >> (20 + r.below(40))); struct tm m; memset(&m, 0, sizeof m); coda_gmtime(t, &m); d << (uint64_t) m.tm_sec << (uint64_t) m.tm_min << (uint64_t) m.tm_hour << (uint64_t) m.tm_mday << (uint64_t) m.tm_mon << (uint64_t) m.tm_year << (uint64_t) m.tm_wday; }
    return d.h;
}
static uint64_t viet(Rng &r)
{
    Dig d; static const char *const w[] = { "a", "Z", "\xc3\x80", "\xe1\xba\xa1", "\xcc\x81", "\xd0\xb6", "\xf0\x9f\x98\x80", "\xe2\x82\xac", "\xc4\x91", "\xe1" }; string s;
    for (size_t n = r.below(r.chance(1, 6) ? 500 : 20); n--; ) s += w[r.below(9)];
    if (r.chance(1, 4)) s += w[9];
    d << coda_remove_tones_utf8(s.data(), s.size());
    return d.h;
}
static uint64_t inet(Rng &r)
{
    Dig d; for (int k = 0; k < 6; ++k) { string s = r.chance(1, 2) ? fmt("%u.%u.%u.%u", (unsigned) r.below(280), (unsigned) r.below(256), (unsigned) r.below(256), (unsigned) r.below(256)) : bytes(r, 15, "0123456789..."); d << coda_inet_addr(s.data(), s.size()); }
    return d.h;
}
static uint64_t letters(Rng &r)
{
    Dig d; string a = bytes(r, 60, "abcdefghijkl") + "Q"; size_t n = r.below(r.chance(1, 6) ? 3000 : 40); string s = coda_random_string(n, a.data(), a.size());
    d << s.size() << (s.find_first_not_of(a) == string::npos);
    return d.h;
}
static uint64_t cache(Rng &r)
{
    Dig d; coda_cache<string, string> c(100 + r.below(600), r.chance(1, 2) ? 0 : 1000000000);
    for (size_t n = r.below(80); n--; )
    {
        string k = fmt("key %u", (unsigned) r.below(9));
        switch (r.below(4))
        {
        case 0: case 1: c.set(k, bytes(r, 100, "valuex"), r.chance(1, 2)); break;
        case 2: d << c.erase(k); break;
        default: { const string *p = c.get(k); d << (p != 0); if (p) d << *p; }
        }
        string g = "none"; c.get(k, g); d << g;
    }
    string s; c.dbg(s, 0); size_t p = s.find("time_max"); d << s.substr(0, p);
    return d.h;
}
static uint64_t slots(Rng &r)
{
    Dig d; typedef shm::pool<uint64_t, 13> P; P p, q; std::vector<uint8_t> h(p.header_size()), s(p.stack_size()), o(p.data_size());
    p.attach(h.data(), s.data(), o.data()); std::vector<uint32_t> in;
    for (size_t n = r.below(100); n--; )
    {
        P &x = n & 1 ? p : q; if (n & 1) q.detach(); else q.attach(h.data(), s.data(), o.data());
        if (r.chance(3, 5)) { uint32_t e = x.allocate(); d << e; if (e != (uint32_t) -1) in.push_back(e); } else if (!in.empty()) { size_t k = r.below(in.size()); d << x.free(in[k]); in.erase(in.begin() + (long) k); }
        d << x.allocated_objects();
    }
    return d.h;
}
static uint64_t buckets(Rng &r)
{
    Dig d; coda::log_array<uint64_t, 12> a, b; for (size_t n = r.below(60); n--; ) { a.get_by_value((size_t) (1 + (r.next() >> r.below(63)))) += n; b.get_at(r.below(12)) += 3; if (r.chance(1, 8)) a.swap(b); }
    for (size_t i = 0; i < 12; ++i) d << a.get_at(i) << b.get_at(i);
    return d.h;
}
static uint64_t paths(Rng &r)
{
    static std::atomic<unsigned> seq(0); Dig d; string top = fmt("p%u", seq.fetch_add(1, std::memory_order_relaxed)), s = top; std::vector<string> dirs;
    for (size_t n = r.below(6); n--; ) { dirs.push_back(s); s += "/" + bytes(r, 20, "abc") + "d"; }
    string t = s; int rc = coda_mkpath(&t[0]); d << (uint64_t) rc << (t == s);
    int fd = coda_fdopen(-1, s.c_str(), O_CREAT | O_RDWR); d << (fd >= 0);
    string text = bytes(r, 5000, "text"); if (fd >= 0) { d << (write(fd, text.data(), text.size()) == (ssize_t) text.size()); close(fd); }
    coda_strt area; area.data = 0; area.size = 0; rc = coda_mmap(&area, PROT_READ, MAP_SHARED, s.c_str()); d << (uint64_t) rc;
    if (rc == 0) { d << area.size << string((char *) area.data, area.size); munmap(area.data, area.size); }
    unlink(s.c_str()); while (!dirs.empty()) { rmdir(dirs.back().c_str()); dirs.pop_back(); }
    return d.h;
}

static const struct { const char *prop; Answer f; } table[] = {
    { "C01", b58 }, { "C02", b58 }, { "C03", b64 }, { "C04", w64 }, { "C05", urlcode }, { "C06", urlesc }, { "C07", query }, { "C08", url }, { "C09", url }, { "C10", cache }, { "C11", cache }, { "C12", search },
    { "C13", tokens }, { "C14", format }, { "C15", storage }, { "C16", xml }, { "C28", paths }, { "C29", calendar }, { "C30", viet }, { "C31", inet }, { "C32", letters }, { "C33", buckets }, { "C36", slots } };

static void round(Answer f, Rng &r)
{
    unsigned T = 2 + (unsigned) r.below(5), N = 1 + (unsigned) r.below(r.chance(1, 3) ? 4 : 60), reps = 1 + (unsigned) r.below(N < 5 ? 60 : 4);
    std::vector<uint64_t> seeds(N), want(N), order;
    for (unsigned i = 0; i < N; ++i) { seeds[i] = r.next(); Rng x(seeds[i]); want[i] = f(x); }
    std::atomic<unsigned> ready(0), wrong(0); std::vector<std::thread> th; std::vector<uint64_t> rs; for (unsigned t = 0; t < T; ++t) rs.push_back(r.next());
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t]
    {
        Rng mine(rs[t]); ready.fetch_add(1); while (ready.load() < T) sched_yield();
        for (unsigned k = 0; k < N * reps; ++k) { unsigned i = (unsigned) mine.below(N); Rng x(seeds[i]); if (f(x) != want[i]) wrong.fetch_add(1); }
    });
    for (auto &t : th) t.join();
    CHECK(!wrong.load(), "other-result-in-threads", "%u of %u requests got another result when several threads called at once than when one called alone", wrong.load(), T * N * reps);
    evaluated(1); ev("requests answered by several threads at once", (uint64_t) T * N * reps); ev("rounds of threads calling at once"); mark();
    for (auto s : seeds) distinct(mix(s, T));
}

void vp_custom()
{
    string p = opt.str("prop", ""); Answer f = 0;
    for (auto &t : table) if (p == t.prop) f = t.f;
    if (!f) harness_error("no thread workload for this property");
    if (chdir(opt.dir.c_str())) harness_error("no scratch directory");
    double end = now() + (double) opt.num("budget", 4);
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i) { Rng r(opt.seed * 7919 + i * 31 + opt.shard * 1000003 + (uint64_t) opt.num("seedoff", 0)); round(f, r); }
}
void vp_init() { }
