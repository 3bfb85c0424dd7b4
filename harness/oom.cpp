// C38 running out of memory, and copies and callbacks that throw: every fault point of an operation is tried in turn, once as the only fault
// and once with everything failing from there on; then the object is used again.
#define VP_SYSWRAP_IMPL
#include "shmqueue.hpp"
#include <coda/cache.hpp>
#include <coda/synque.hpp>
#include <coda/stringstorage.h>
#include <coda/url_parser.hpp>
#include <coda/url.hpp>
#include <coda/string.hpp>
#include <coda/vietnam.hpp>
#include <coda/txml.hpp>
#include <coda/logger.h>
#include <new>
#include <functional>
#include <stdexcept>

// ---- faults -------------------------------------------------------------------------------------------------------------------
static struct { bool on, keep; long at, seen, fired; bool boom, arrived; } F;
static bool hit() { if (!F.on) return false; ++F.seen; bool h = F.at && (F.seen == F.at || (F.keep && F.seen > F.at)); F.fired += h; return h; }
struct Boom: std::exception { const char *what() const noexcept { return "a copy or callback that throws"; } };

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { return hit() ? (errno = ENOMEM, (void *) 0) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return hit() ? (errno = ENOMEM, (void *) 0) : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return hit() ? (errno = ENOMEM, (void *) 0) : __real_realloc(p, n); }
}
static void *get(size_t n) { if (hit()) throw std::bad_alloc(); void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return hit() ? 0 : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return hit() ? 0 : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

// expat takes its memory from the same place
extern "C" XML_Parser __real_XML_ParserCreate(const XML_Char *);
extern "C" XML_Parser __wrap_XML_ParserCreate(const XML_Char *enc)
{
    static const XML_Memory_Handling_Suite m = { __wrap_malloc, __wrap_realloc, free };
    return XML_ParserCreate_MM(enc, &m, 0);
}

// ---- locks: one thread only, so that taking a held lock would block for ever -------------------------------------------------------
static std::map<pthread_mutex_t *, int> *g_locks;
static const char *g_doing = "";
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    bool o = F.on; F.on = false;
    CHECK((*g_locks)[m] == 0, "lock-held", "%s: the lock is still held afterwards", g_doing);
    (*g_locks)[m] = 1; F.on = o;
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { bool o = F.on; F.on = false; g_locks->erase(m); F.on = o; return __real_pthread_mutex_unlock(m); }
}

enum { DONE, THREW };
template <class G> static int attempt(long at, bool keep, G g)
{
    F.at = at; F.keep = keep; F.seen = F.fired = 0; F.boom = F.arrived = false; F.on = true;
    try { g(); }
    catch (const Boom &) { F.on = false; F.arrived = true; return THREW; }
    catch (...)
    {
        F.on = false;
        CHECK(!F.boom || F.keep, "other-exception", "%s: an exception of the caller's own arrives as another one", g_doing);
        return THREW;
    }
    F.on = false; return DONE;
}
// body(at, keep) performs the operation once in a fresh state, through attempt()
template <class B> static void sweep(B body)
{
    for (int keep = 0; keep < 2; ++keep)
        for (long k = 1; ; k += 1 + k / 40)
        {
            body(k, keep != 0);
            if (!F.fired) break;
            ev("operations with a fault"); sig((uint64_t) k * 2 + (uint64_t) keep); mark();
            HCHECK(k < 100000, "too many fault points");
        }
}
static string faulty(const char *what, long k, bool keep) { return fmt("%s with fault %ld%s", what, k, keep ? " and all following ones" : ""); }
#define NOFAULT(r, w) CHECK((r) == DONE || F.fired, "throws", "%s: throws though nothing failed", (w).c_str())

// a text copied with pain
struct Bomb
{
    string s; static long live;
    Bomb() { ++live; }
    explicit Bomb(const string &t): s(t) { ++live; }
    Bomb(const Bomb &b): s((bang(), b.s)) { ++live; }
    Bomb &operator=(const Bomb &b) { bang(); s = b.s; return *this; }
    ~Bomb() { --live; }
    static void bang() { if (hit()) { F.boom = true; throw Boom(); } }
    size_t estimate_capacity() const { return 100 + s.size(); }
};
long Bomb::live;
static const string &text(const Bomb &b) { return b.s; }
static const string &text(const string &b) { return b; }

static string word(In &in, size_t max = 60) { return in.bytes(in.len(max), "abcdefgh%+ =&,.:/-"); }

// ---- functions that make strings --------------------------------------------------------------------------------------------------
static string joined(const std::vector<string> &v) { string r; for (auto &s : v) r += fmt("%zu:", s.size()) + s; return r; }
static void functions(In &in)
{
    string s = word(in, 300), t = s; for (char &c : t) if (!c) c = '_';
    string viet; for (unsigned n = in.below(30); n; --n) viet += in.chance(1, 3) ? "\xE1\xBA\xA5" : in.chance(1, 2) ? "\xC4\x91" : "x";
    size_t big = in.chance(1, 3) ? 32700 + in.below(200) : in.len(40000); string bigs = in.bytes(big, "klmnop");
    std::function<string()> f; string name;
    switch (in.below(11))
    {
    case 0: name = "coda_urlenc"; f = [&] { return coda_urlenc(s); }; break;
    case 1: name = "coda_urlenc_noplus"; f = [&] { return coda_urlenc_noplus(s.data(), s.size()); }; break;
    case 2: name = "coda_urldec"; f = [&] { return coda_urldec(s); }; break;
    case 3: name = "coda_remove_tones_utf8"; f = [&] { return coda_remove_tones_utf8(viet.data(), viet.size()); }; break;
    case 4: case 5: name = "coda_strprintf"; f = [&] { return coda_strprintf("%s|%d", bigs.c_str(), 7); }; break;
    case 6: case 7:
    {
        // the vector is compared outside, where nothing fails
        bool sized = in.chance(1, 2), ign = in.chance(1, 2);
        auto g = [&] { return sized ? coda_split_string(t.data(), t.size(), ",. ", ign) : coda_split_string(t.c_str(), ",. ", ign); };
        std::vector<string> want = g();
        sweep([&](long k, bool keep)
        {
            std::vector<string> got; string w = faulty("coda_split_string", k, keep); g_doing = w.c_str();
            int r = attempt(k, keep, [&] { g().swap(got); }); NOFAULT(r, w);
            if (r == DONE) CHECK(joined(got) == joined(want), "other-result", "%s: gives %s instead of %s", w.c_str(), S(joined(got)), S(joined(want)));
        });
        ev("functions swept"); sig(hash(t)); sig(sized);
        return;
    }
    case 8: name = "coda_random_string"; f = [&] { return coda_random_string(s.size(), "ab", 2); }; break;
    default: name = "coda_urlenc"; f = [&] { return coda_urlenc(bigs.data(), bigs.size()); }; break;
    }
    bool rnd = name == "coda_random_string";
    string want = f();
    sig(hash(name)); sig(hash(want));
    sweep([&](long k, bool keep)
    {
        string got, w = faulty(name.c_str(), k, keep); g_doing = w.c_str();
        int r = attempt(k, keep, [&] { f().swap(got); }); NOFAULT(r, w);
        if (r != DONE) return;
        if (rnd) CHECK(got.size() == want.size() && got.find_first_not_of("ab") == string::npos, "other-result", "%s: gives %s", w.c_str(), S(got));
        else CHECK(got == want, "other-result", "%s: gives %s instead of %s", w.c_str(), S(got), S(want));
    });
    ev("functions swept");
}

// ---- functions that add to something ----------------------------------------------------------------------------------------------
static void appenders(In &in)
{
    string old = in.bytes(in.len(100), "XYZ"), s = in.bytes(in.chance(1, 2) ? 32700 + in.below(200) : in.len(40000), "klmnop");
    unsigned which = in.below(3); size_t num = in.chance(1, 3) ? in.len(70000) : in.chance(1, 2) ? 40000 + in.below(10) : 32760 + in.below(20), pos = in.below((uint32_t) old.size() + 1);
    static const char *const names[] = { "coda_strappend", "coda_strnappend", "coda_strnprintf" };
    auto run = [&](string &o) { return which == 0 ? coda_strappend(o, "%s", s.c_str()) : which == 1 ? coda_strnappend(o, num, "%s", s.c_str()) : coda_strnprintf(o, pos, num, "%s", s.c_str()); };
    string want = old; int wr = run(want);
    sig(which); sig(s.size()); sig(num); sig(old.size());
    sweep([&](long k, bool keep)
    {
        string w = faulty(names[which], k, keep), got = old; int gr = 0; g_doing = w.c_str();
        int r = attempt(k, keep, [&] { gr = run(got); }); NOFAULT(r, w);
        if (r == DONE && (gr >= 0 || wr < 0))
        {
            CHECK(gr == wr, "other-result", "%s: returns %d instead of %d", w.c_str(), gr, wr);
            CHECK(got == want, "other-result", "%s: gives %zu bytes instead of %zu", w.c_str(), got.size(), want.size());
            return;
        }
        CHECK(r == DONE || F.fired, "throws", "%s: fails though nothing failed", w.c_str());
        if (which < 2) CHECK(got.size() >= old.size() && got.size() <= want.size() && got == want.substr(0, got.size()), "broken-contents", "%s: leaves %s, which does not begin with what was there", w.c_str(), S(got));
        else CHECK(got == old || got == want, "broken-contents", "%s: leaves %s, neither the old nor the new text", w.c_str(), S(got));
        got = old; gr = run(got);
        CHECK(gr == wr && got == want, "unusable", "%s: then another try gives another result", w.c_str());
    });
    ev("appending functions swept");
}

static void sets(In &in)
{
    string list; std::set<string> old, want; std::set<uint64_t> uold, uwant;
    bool num = in.chance(1, 3);
    for (unsigned n = in.below(8); n; --n) { if (!list.empty()) list += ","; list += num ? fmt("%u", in.below(1000)) : in.bytes(1 + in.len(30), "abcdefgh"); }
    for (unsigned n = in.below(4); n; --n) { old.insert(in.bytes(in.len(30), "ABC")); uold.insert(5000 + n); }
    want = old; uwant = uold; coda_get_stringset(list.c_str(), want); coda_get_uint64set(list.c_str(), uwant); sig(hash(list)); sig(num);
    sweep([&](long k, bool keep)
    {
        string w = faulty(num ? "coda_get_uint64set" : "coda_get_stringset", k, keep); std::set<string> got = old; std::set<uint64_t> ugot = uold; g_doing = w.c_str();
        int r = attempt(k, keep, [&] { if (num) coda_get_uint64set(list.c_str(), ugot); else coda_get_stringset(list.c_str(), got); }); NOFAULT(r, w);
        if (r == DONE) { CHECK(num ? ugot == uwant : got == want, "other-result", "%s: another set", w.c_str()); return; }
        CHECK(std::includes(got.begin(), got.end(), old.begin(), old.end()) && std::includes(ugot.begin(), ugot.end(), uold.begin(), uold.end()), "broken-contents", "%s: elements of before are gone", w.c_str());
        CHECK(std::includes(want.begin(), want.end(), got.begin(), got.end()) && std::includes(uwant.begin(), uwant.end(), ugot.begin(), ugot.end()), "broken-contents", "%s: the set has elements that are not in the list", w.c_str());
        if (num) coda_get_uint64set(list.c_str(), ugot); else coda_get_stringset(list.c_str(), got);
        CHECK(num ? ugot == uwant : got == want, "unusable", "%s: then another try gives another set", w.c_str());
    });
    ev("sets swept");
}

static void params(In &in)
{
    bool head = in.chance(1, 2); string q; std::map<string, string> old, want, given;
    for (unsigned n = in.below(3); n; --n) old[in.bytes(1 + in.below(30), "kq")] = in.bytes(in.len(40), "old");
    for (unsigned n = in.below(6); n; --n)
    {
        string k = in.bytes(1 + in.below(30), "kq"), v = in.bytes(in.len(40), "new"); if (given.count(k)) continue;
        given[k] = v; q += k + (head ? ":" : "=") + v + (head ? "\r\n" : "&");
    }
    auto run = [&](std::map<string, string> &m) { return head ? coda_get_header_buf(m, q.data(), q.size()) : coda_get_params(m, q.c_str()); };
    want = old; int wr = run(want); sig(hash(q)); sig(head);
    sweep([&](long k, bool keep)
    {
        string w = faulty(head ? "coda_get_header_buf" : "coda_get_params", k, keep); std::map<string, string> got = old; int gr = 0; g_doing = w.c_str();
        int r = attempt(k, keep, [&] { gr = run(got); }); NOFAULT(r, w);
        if (r == DONE && gr == 0) { CHECK(gr == wr && got == want, "other-result", "%s: another map", w.c_str()); return; }
        CHECK(F.fired, "fails", "%s: fails though nothing failed", w.c_str());
        for (auto &x : old) CHECK(got.count(x.first), "broken-contents", "%s: entry %s is gone", w.c_str(), S(x.first));
        for (auto &x : got)
        {
            CHECK(want.count(x.first), "broken-contents", "%s: an entry %s that is not in the text", w.c_str(), S(x.first));
            CHECK(x.second == want[x.first] || (old.count(x.first) ? x.second == old[x.first] : false) || x.second.empty(), "broken-contents", "%s: entry %s has the value %s", w.c_str(), S(x.first), S(x.second));
        }
        CHECK(run(got) == wr && got == want, "unusable", "%s: then another try gives another map", w.c_str());
    });
    ev("maps swept");
}

// ---- the cache ----------------------------------------------------------------------------------------------------------------------
template <class V> static void cache(In &in, const char *name)
{
    struct Op { int kind; string key, val; };
    std::vector<Op> ops; size_t limit = in.chance(1, 4) ? 0 : 100 + in.below(1500); string trace = fmt("%s limit %zu:", name, limit);
    for (unsigned n = 1 + in.below(10); n; --n)
    {
        Op o = { (int) in.below(8), fmt(in.chance(1, 2) ? "k%u" : "a longer key that is kept on the heap %u", in.below(5)), in.bytes(in.len(80), "abcd") };
        ops.push_back(o); trace += fmt(" %s(%s,%zu)", o.kind < 6 ? "set" : o.kind < 7 ? "get" : "erase", o.key.c_str(), o.val.size()); sig(hash(o.key)); sig((uint64_t) o.kind); sig(o.val.size());
    }
    sig(limit); sig((uint64_t) name[0]);
    std::vector<string> keys; for (int i = 0; i < 5; ++i) { keys.push_back(fmt("k%d", i)); keys.push_back(fmt("a longer key that is kept on the heap %d", i)); }
    size_t target = in.below((uint32_t) ops.size());
    sweep([&](long k, bool keep)
    {
        string w = faulty((trace + fmt(": step %zu", target)).c_str(), k, keep); g_doing = w.c_str(); long live = Bomb::live; int r = DONE;
        {
            coda_cache<string, V> c(limit, 0); std::map<string, std::set<string> > may; // what a key may hold; absent is always possible
            std::set<string> must;                                                    // keys that hold something for certain
            bool was = false;
            auto check = [&](const char *when)
            {
                size_t sum = 0, have = 0;
                for (auto &x : keys)
                {
                    const V *v = c.get(x);
                    if (!v) { CHECK(!must.count(x), "entry-lost", "%s: %s, %s has nothing any more", w.c_str(), when, x.c_str()); continue; }
                    CHECK(may[x].count(text(*v)), "value-never-set", "%s: %s, %s holds %s, which was never set", w.c_str(), when, x.c_str(), S(text(*v)));
                    sum += estimate_capacity(*v); ++have;
                    may[x].clear(); may[x].insert(text(*v));
                }
                string d; c.dbg(d, 0); unsigned long long n = 0, cur = 0;
                if (2 == sscanf(d.c_str(), "nelt_cur=%llu\nsize_cur=%llu", &n, &cur))
                    CHECK(n == have && cur == sum, "accounting", "%s: %s, the cache counts %llu entries of %llu bytes, it holds %zu of %zu", w.c_str(), when, n, cur, have, sum);
                CHECK(sum <= limit, "limit", "%s: %s, %zu bytes in a cache of %zu", w.c_str(), when, sum, limit);
            };
            for (size_t i = 0; i < ops.size(); ++i)
            {
                Op &o = ops[i]; V v(o.val); string out; std::set<string> held;
                if (i == target) for (auto &x : keys) if (x != o.key && c.get(x)) held.insert(x);
                auto step = [&] { if (o.kind < 6) c.set(o.key, v, o.kind & 1); else if (o.kind < 7) { V g; c.get(o.key, g); } else c.erase(o.key); };
                if (i == target) { r = attempt(k, keep, step); was = F.fired; NOFAULT(r, w); } else step();
                if (i == target && r != DONE)
                {
                    if (o.kind < 6) may[o.key].insert(o.val);
                    must = held; check("after it failed"); must.clear();
                    step(); // again, and it works
                }
                if (o.kind < 6) { may[o.key].clear(); may[o.key].insert(o.val); if (limit >= 400) must.insert(o.key); }
                else if (o.kind == 7) may[o.key].clear();
                check("then"); must.clear();
            }
            for (auto &x : keys) { c.erase(x); may[x].clear(); }
            check("in the end, with all erased");
            F.fired = was;
        }
        CHECK(Bomb::live == live, "leak", "%s: %ld values too many are alive", w.c_str(), Bomb::live - live);
    });
    ev("cache steps swept");
}

// ---- the queue of one process ------------------------------------------------------------------------------------------------------
template <class V> static void fifo(In &in, const char *name)
{
    std::vector<string> init; for (unsigned n = in.chance(1, 5) ? 100 + in.below(200) : in.below(12); n; --n) init.push_back(in.bytes(in.len(50), "abcd") + fmt("%u", n));
    unsigned op = in.below(3); ssize_t max = (ssize_t) in.below(14) - 1; string val = in.bytes(in.len(60), "new"); unsigned pre = in.below(3);
    static const char *const names[] = { "add", "get", "get of several" }; if (op && init.empty()) init.push_back("only");
    sig(op); sig(init.size()); sig((uint64_t) max); sig(val.size()); sig((uint64_t) name[0]); for (auto &s : init) sig(s.size());
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("%s: %s of a queue of %zu", name, names[op], init.size()).c_str(), k, keep); g_doing = w.c_str(); long live = Bomb::live;
        {
            coda::synque<V> q; for (auto &s : init) q.add(V(s));
            V v(op ? string("before") : val); std::deque<V> out; for (unsigned i = 0; i < pre; ++i) out.push_back(V("pre"));
            int rc = 0, r = attempt(k, keep, [&] { if (op == 0) q.add(v); else if (op == 1) rc = q.get(v, 0); else rc = q.get(out, max, 0); });
            bool was = F.fired; NOFAULT(r, w);
            bool ok = r == DONE && rc == 0; CHECK(ok || was, "fails", "%s: returns %d though nothing failed", w.c_str(), rc);
            // whatever happened, nothing is lost, doubled or out of order
            std::vector<string> got;
            if (op == 1) { if (ok) got.push_back(text(v)); }
            if (op == 2) { CHECK(out.size() >= pre, "broken-contents", "%s: what was in the list of the caller is gone", w.c_str()); for (size_t i = 0; i < out.size(); ++i) { if (i < pre) CHECK(text(out[i]) == "pre", "broken-contents", "%s: what was in the list of the caller is changed", w.c_str()); else got.push_back(text(out[i])); } }
            if (op == 2 && ok) CHECK(got.size() == (max > 0 && (size_t) max < init.size() ? (size_t) max : init.size()), "other-result", "%s: gives %zu", w.c_str(), got.size());
            q.signal();
            size_t left = q.size(); V x; while (0 == q.get(x, 0)) { got.push_back(text(x)); --left; }
            CHECK(left == 0, "size", "%s: then the size is off by %zd", w.c_str(), (ssize_t) left);
            std::vector<string> want = init; if (op == 0 && ok) want.push_back(val);
            if (op == 0 && !ok && got.size() == init.size() + 1) want.push_back(val);
            CHECK(got == want, "lost-or-doubled", "%s: %zu elements come out instead of %zu, or others", w.c_str(), got.size(), want.size());
            q.add(V("again")); CHECK(q.get(x, 0) == 0 && text(x) == "again" && q.size() == 0, "unusable", "%s: then an element does not come through", w.c_str());
            F.fired = was;
        }
        CHECK(g_locks->empty(), "lock-held", "%s: a lock is left held", w.c_str());
        CHECK(Bomb::live == live, "leak", "%s: %ld elements too many are alive", w.c_str(), Bomb::live - live);
    });
    ev("queue operations swept");
}

// ---- the string storage ---------------------------------------------------------------------------------------------------------------
static void storage(In &in)
{
    size_t uds = in.chance(1, 3) ? in.len(1500) : in.below(20); std::vector<string> v; string base = in.bytes(250, "pqr");
    unsigned n = 1 + in.below(in.chance(1, 4) ? 60 : 12);
    for (unsigned i = 0; i < n; ++i) v.push_back(base.substr(0, in.chance(1, 2) ? in.below(12) : in.below(220)) + in.bytes(in.below(12), "stu"));
    sig(uds); for (auto &s : v) sig(hash(s));
    size_t target = in.chance(1, 2) ? v.size() - 1 : in.below((uint32_t) v.size()); bool again = in.chance(1, 2);
    struct L { std::map<string, std::vector<void *> > m; static void cb(void *u, const char *k, void *p) { ((L *) u)->m[k].push_back(p); } };
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("adding string %zu of %zu with %zu bytes each", target, v.size(), uds).c_str(), k, keep); g_doing = w.c_str(); bool was = false;
        string_storage ss; string_storage_init(&ss, uds); std::map<string, void *> m;
        auto check = [&](const char *when)
        {
            L l; string_storage_enumerate(&ss, L::cb, &l);
            for (auto &x : l.m) { CHECK(m.count(x.first), "invented", "%s: %s, %s is enumerated, which is not stored", w.c_str(), when, S(x.first)); CHECK(x.second.size() == 1 && x.second[0] == m[x.first], "slot", "%s: %s, %s is enumerated with another slot or twice", w.c_str(), when, S(x.first)); }
            CHECK(l.m.size() == m.size(), "entry-lost", "%s: %s, %zu strings of %zu are enumerated", w.c_str(), when, l.m.size(), m.size());
            for (auto &x : m) for (size_t i = 0; i < uds; ++i) CHECK(((uint8_t *) x.second)[i] == (uint8_t) (hash(x.first) >> 8 * (i & 7)), "slot", "%s: %s, the data of %s is changed", w.c_str(), when, S(x.first));
        };
        auto fill = [&](const string &s, void *p) { for (size_t i = 0; i < uds; ++i) { CHECK(((uint8_t *) p)[i] == 0, "slot", "%s: a new slot is not zeroed", w.c_str()); ((uint8_t *) p)[i] = (uint8_t) (hash(s) >> 8 * (i & 7)); } m[s] = p; };
        for (size_t i = 0; i < v.size(); ++i)
        {
            const string &s = v[i]; void *p = 0; bool tried = false;
            if (i == target)
            {
                int r = attempt(k, keep, [&] { p = string_storage_add(&ss, s.c_str()); }); was = F.fired; NOFAULT(r, w); tried = true;
                if (!p)
                {
                    CHECK(was, "refused", "%s: refused though nothing failed", w.c_str());
                    check("after it failed");
                    if (!again) continue;
                    tried = false;
                }
            }
            if (!tried) p = string_storage_add(&ss, s.c_str());
            CHECK(p, "unusable", "%s: then string %zu is refused", w.c_str(), i);
            if (m.count(s)) CHECK(m[s] == p, "slot", "%s: then %s has another slot", w.c_str(), S(s)); else fill(s, p);
        }
        check("in the end");
        for (auto &x : m) CHECK(string_storage_add(&ss, x.first.c_str()) == x.second, "slot", "%s: in the end %s is stored anew", w.c_str(), S(x.first));
        string_storage_free(&ss); F.fired = was;
    });
    ev("storages swept");
}

// ---- urls ---------------------------------------------------------------------------------------------------------------------------
static string desc(const coda_url &u) { return string(u.get_url()) + fmt(" (%u) ", u.get_url_len()) + u.get_domain() + fmt(" (%u)", u.get_domain_len()); }
static void urls(In &in)
{
    auto any = [&] { string s; if (in.chance(1, 2)) s = in.chance(1, 2) ? "http://" : "https://"; s += in.bytes(in.len(60), "abc./?-") + (in.chance(1, 3) ? "/x/../y" : ""); return s; };
    string a = "http://" + in.bytes(1 + in.below(20), "abc.-") + "/" + any(), b = any(), c = "http://keep.me/" + any(); unsigned op = in.below(5); bool full = in.chance(2, 3);
    if (b.empty()) b = "x";
    static const char *const names[] = { "create_absolute", "create_relative", "copying", "assigning", "assigning an empty one" };
    sig(op); sig(hash(a)); sig(hash(b)); sig(full);
    string old, want; int wr;
    auto world = [&](coda_url &from, coda_url &to) { from.create_absolute(a.data(), a.size(), 0); if (op >= 3 && full) to.create_absolute(c.data(), c.size(), 0); };
    auto run = [&](coda_url &from, coda_url &to, string *copied) -> int
    {
        switch (op)
        {
        case 0: return to.create_absolute(b.data(), b.size(), 0);
        case 1: return to.create_relative(b.data(), b.size(), 0, from);
        case 2: { coda_url x(from); bool o = F.on; F.on = false; *copied = desc(x); F.on = o; return 0; }
        case 3: to = from; return 0;
        default: { coda_url e; to = e; return 0; }
        }
    };
    { coda_url f, t; world(f, t); old = desc(t); wr = run(f, t, &want); if (op != 2) want = desc(t); }
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("%s (%s, %s)", names[op], show(a).c_str(), show(b).c_str()).c_str(), k, keep), cp; g_doing = w.c_str();
        coda_url f, t; world(f, t); string from = desc(f); int rc = 0;
        int r = attempt(k, keep, [&] { rc = run(f, t, &cp); }); bool was = F.fired; NOFAULT(r, w);
        CHECK(desc(f) == from, "broken-contents", "%s: the other url is changed", w.c_str());
        if (r == DONE && rc == wr) { CHECK((op == 2 ? cp : desc(t)) == want, "other-result", "%s: gives %s instead of %s", w.c_str(), S(desc(t)), S(want)); }
        else
        {
            CHECK(was, "fails", "%s: returns %d though nothing failed", w.c_str(), rc);
            CHECK(r == THREW || rc == -1, "other-result", "%s: returns %d", w.c_str(), rc);
            string d = desc(t); CHECK(d == old || d == want || (t.empty() && d == desc(coda_url())), "broken-contents", "%s: leaves %s", w.c_str(), S(d));
            t.empty(); t.allocated();
            // used again: copied, assigned over, created anew
            { coda_url x(t); CHECK(desc(x) == d || t.empty(), "unusable", "%s: its copy differs", w.c_str()); coda_url y; y = t; t = f; CHECK(desc(t) == from, "unusable", "%s: then assigning gives %s", w.c_str(), S(desc(t))); }
            coda_url x; if (-1 == t.create_absolute(c.data(), c.size(), 0)) t.create_absolute(c.data(), c.size(), 0); x.create_absolute(c.data(), c.size(), 0);
            CHECK(desc(t) == desc(x), "unusable", "%s: then creating gives %s", w.c_str(), S(desc(t)));
        }
        F.fired = was;
    });
    ev("urls swept");
}

// ---- xml -------------------------------------------------------------------------------------------------------------------------
struct Item: coda::txml_determination_object
{
    string a, t; int32_t n; Item(): n(0) {}
    void determine(coda::txml_parser *p) { Bomb::bang(); p->determineMember("a", a); p->determineMember("n", n); p->determineMember("t", t); }
    string str() const { return fmt("{%s %d %s}", a.c_str(), n, t.c_str()); }
};
struct Doc: coda::txml_determination_object
{
    string s; std::list<string> l; std::vector<int32_t> v; std::list<Item> item; Item one;
    void determine(coda::txml_parser *p) { Bomb::bang(); p->determineMember("s", s); p->determineMember("l", l); p->determineMember("v", v); p->determineMember("item", item); p->determineMember("one", one); }
    string str() const { string r = s + "|"; for (auto &x : l) r += x + ","; r += "|"; for (int x : v) r += fmt("%d,", x); r += "|"; for (auto &x : item) r += x.str(); return r + one.str(); }
};
struct Top: coda::txml_determination_object { Doc d; void determine(coda::txml_parser *p) { p->determineMember("d", d); } };
static void xml(In &in)
{
    string x = "<d>";
    auto w = [&] { return in.bytes(in.len(40), "abcdef "); };
    auto item = [&](const char *n) { return fmt("<%s a=\"%s\"><n>%u</n><t>%s&amp;%s</t></%s>", n, w().c_str(), in.below(1000), w().c_str(), w().c_str(), n); };
    for (unsigned n = in.below(6); n; --n) switch (in.below(6))
    {
    case 0: x += "<s>" + w() + "</s>"; break;
    case 1: x += "<l>" + w() + "</l>"; break;
    case 2: x += fmt("<v>%u</v>", in.below(100)); break;
    case 3: case 4: x += item("item"); break;
    default: x += item("one");
    }
    x += in.chance(1, 8) ? "</e>" : "</d>"; if (in.chance(1, 6)) x += string(in.below(9000), ' ');
    bool file = in.chance(1, 3), sized = in.chance(1, 2), broken = false; string path = opt.dir + "/oom.xml"; if (file) write_file(path, x);
    auto load = [&](Top &t) { if (file) t.load_from_file(path.c_str()); else if (sized) t.load_from_string(x.data(), x.size()); else t.load_from_string(x.c_str()); };
    Top want; try { load(want); } catch (const std::exception &) { broken = true; }
    sig(hash(x)); sig(file);
    int fds = file ? open_fds() : 0;
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("loading %s from a %s", show(x, 200).c_str(), file ? "file" : "string").c_str(), k, keep); g_doing = w.c_str();
        Top t; int r = attempt(k, keep, [&] { load(t); }); bool was = F.fired;
        if (!broken) NOFAULT(r, w);
        if (broken) CHECK(r == THREW, "accepted", "%s: a broken document is loaded", w.c_str());
        else if (r == DONE) CHECK(t.d.str() == want.d.str(), "other-result", "%s: gives %s instead of %s", w.c_str(), S(t.d.str()), S(want.d.str()));
        if (r == THREW)
        {
            if (file && (k < 8 || k % 16 == 0)) CHECK(open_fds() == fds, "descriptor-leak", "%s: the file stays open", w.c_str());
            if (k % 8 == 1) { try { load(t); CHECK(!broken, "accepted", "%s: then a broken document is loaded", w.c_str()); } catch (const std::exception &e) { CHECK(broken, "unusable", "%s: then loading fails: %s", w.c_str(), e.what()); } ev("objects loaded again"); }
        }
        F.fired = was;
    });
    ev("xml documents swept");
}

// ---- the log line ----------------------------------------------------------------------------------------------------------------
static void logline(In &in)
{
    string s = in.bytes(in.chance(1, 2) ? 4085 + in.below(20) : in.len(30000), "logline ");
    sig(s.size());
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("log_fprintf of %zu bytes", s.size()).c_str(), k, keep); g_doing = w.c_str();
        char *buf = 0; size_t n = 0; FILE *f = open_memstream(&buf, &n); HCHECK(f, "open_memstream"); int rc = 0;
        int r = attempt(k, keep, [&] { rc = log_fprintf(f, "[%s]\n", s.c_str()); }); bool was = F.fired;
        HCHECK(r == DONE, "thrown through C"); fclose(f); string got(buf, n); free(buf);
        CHECK(got == "[" + s + "]\n" || (rc < 0 && got.empty()), "line", "%s: writes %s and returns %d", w.c_str(), S(got), rc);
        CHECK(rc < 0 || rc == (int) got.size(), "line", "%s: returns %d", w.c_str(), rc);
        F.fired = was;
    });
    ev("log lines swept");
}

// ---- shared queues ------------------------------------------------------------------------------------------------------------------
static void shqueue(In &in)
{
    uint32_t bs = 30 + in.below(300), n = 2 + in.below(5); bool existing = in.chance(1, 2);
    sig(bs); sig(n); sig(existing);
    sweep([&](long k, bool keep)
    {
        string w = faulty(fmt("connecting to %s queue of %u boxes of %u bytes", existing ? "an existing" : "a new", n, bs).c_str(), k, keep); g_doing = w.c_str();
        Key key; long before = 0; shm_queue::queue<Var> other, q; Var v; v.set(1, 12); bool was;
        if (existing) { other.connect(key.c(), bs, n); other.put(v); other.flush(); before = key.attached(); }
        int r = attempt(k, keep, [&] { q.connect(key.c(), bs, n); }); was = F.fired; NOFAULT(r, w);
        if (r != DONE)
        {
            CHECK(key.attached() == before, "mapping-kept", "%s: the segment stays mapped", w.c_str());
            Dog d(w.c_str());
            try { q.connect(key.c(), bs, n); } catch (const std::exception &e) { violation("unusable", "%s: then it cannot be connected: %s", w.c_str(), e.what()); }
        }
        Dog d(w.c_str());
        if (!existing) { other.connect(key.c(), bs, n); other.put(v); other.flush(); }
        CHECK(q.boxes_in_queue() == 1 && q.unflush(IPC_NOWAIT), "contents", "%s: then the box of before is gone", w.c_str());
        Var g; CHECK(q.get(g) && g.whole && g.id == 1, "contents", "%s: then the record of before is changed", w.c_str());
        q.disconnect(); other.disconnect(); CHECK(key.attached() == 0, "mapping-kept", "%s: the segment stays mapped after disconnecting", w.c_str());
        F.fired = was;
    });
    ev("connections swept");
}

void vp_init() { g_locks = new std::map<pthread_mutex_t *, int>; shm_start(); }
static void one(unsigned which, In &in)
{
    switch (which)
    {
    case 0: functions(in); break;
    case 1: appenders(in); break;
    case 2: sets(in); break;
    case 3: params(in); break;
    case 4: cache<string>(in, "strings"); break;
    case 5: cache<Bomb>(in, "values"); break;
    case 6: fifo<string>(in, "strings"); break;
    case 7: fifo<Bomb>(in, "values"); break;
    case 8: storage(in); break;
    case 9: urls(in); break;
    case 10: xml(in); break;
    case 11: logline(in); break;
    default: shqueue(in); break;
    }
}
void vp_case(In &in)
{
    // the dear ones less often
    unsigned r = in.below(64);
    one(r < 56 ? r % 10 : r < 60 ? 10 : r < 62 ? 11 : r < 63 ? 12 : 8, in);
}
