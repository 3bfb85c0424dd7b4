// C10 byte limit and eviction order, C11 expiry: histories of cache operations against a list model, on a controlled clock.
#include "common.hpp"
#include <coda/cache.hpp>
#include <list>
#include <type_traits>
#include <memory>
using namespace vp;
using std::string;

static int prop;
static time_t fake_now = 1000000;
extern "C" {
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { if (t) *t = fake_now; return fake_now; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return __real_clock_gettime(c, ts);
    ts->tv_sec = fake_now; ts->tv_nsec = 500000000; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = fake_now; tv->tv_usec = 500000; return 0; }
}

// a value whose size the test chooses and whose payload lives on the heap
struct Blob
{
    string text; size_t size; std::unique_ptr<int> own;
    static long live;
    Blob(): size(0) { ++live; }
    Blob(const string &t, size_t s): text(t), size(s), own(new int(7)) { ++live; }
    Blob(const Blob &b): text(b.text), size(b.size), own(b.own ? new int(*b.own) : 0) { ++live; }
    Blob &operator=(const Blob &b) { if (this != &b) { text = b.text; size = b.size; own.reset(b.own ? new int(*b.own) : 0); } return *this; }
    ~Blob() { --live; }
    size_t estimate_capacity() const { return size; }
    bool operator==(const Blob &b) const { return text == b.text && size == b.size; }
};
long Blob::live;

template <typename K, typename V> struct Gen;
template <> struct Gen<string, Blob>
{
    static string key(unsigned i) { return i & 1 ? fmt("key-%u", i) : fmt("a longer key text that does not fit inside %u", i); }
    static Blob val(unsigned n, size_t size) { return Blob(fmt("v%u", n), size); }
    static size_t size(const Blob &b) { return b.size; }
    static string str(const Blob &b) { return b.text + fmt("(%zu)", b.size); }
};
template <> struct Gen<int, Blob>: Gen<string, Blob> { static int key(unsigned i) { return (int) i * 16; } };
template <> struct Gen<int, int>
{
    static int key(unsigned i) { return -(int) i; }
    static int val(unsigned n, size_t) { return (int) n; }
    static size_t size(int) { return sizeof(int); }
    static string str(int v) { return fmt("%d", v); }
};
template <> struct Gen<string, string>
{
    static string key(unsigned i) { return string(i % 5, 'k') + char('a' + i); }
    static string val(unsigned n, size_t) { return fmt("%u", n); }           // never longer than the inline capacity
    static size_t size(const string &s) { return sizeof(s) + string().capacity(); }
    static string str(const string &s) { return s; }
};

template <typename K, typename V> struct World
{
    typedef Gen<K, V> G;
    struct E { unsigned k; V v; size_t size; time_t at; };
    std::list<E> m;                  // by last set, oldest first
    coda_cache<K, V> c;
    size_t limit, life;
    unsigned seq;
    unsigned dropped, expired, sets;
    string trace;

    World(size_t limit_, size_t life_): c(limit_, life_), limit(limit_), life(life_), seq(0), dropped(0), expired(0), sets(0) { }
    typename std::list<E>::iterator find(unsigned k) { auto i = m.begin(); while (i != m.end() && i->k != k) ++i; return i; }
    size_t total() { size_t t = 0; for (auto &e : m) t += e.size; return t; }
    bool dead(const E &e) { return life && fake_now > e.at && (size_t) (fake_now - e.at) > life; }
    void note(const string &s) { trace += s + "; "; if (trace.size() > 1200) trace = "..." + trace.substr(trace.size() - 1000); sig(vp::hash(s)); }

    void set(unsigned k, const V &v, bool upd)
    {
        sig(k); sig(G::size(v)); sig(upd);
        note(fmt("set(%u,%s,%d)", k, G::str(v).c_str(), upd));
        V copy(v);
        c.set(G::key(k), v, upd);
        auto i = find(k);
        E e = { k, copy, G::size(copy), fake_now };
        if (i != m.end())
        {
            if (!upd) e.at = i->at;
            m.erase(i);
            ev("overwrites");
        }
        m.push_back(e);
        ++sets;
        unsigned d = 0;
        while (total() > limit) { m.pop_front(); ++d; ++dropped; }
        if (d) ev("sets that dropped entries");
        if (d > 1) ev("sets that dropped several entries");
        if (m.empty()) ev("values larger than the limit");
    }
    void erase(unsigned k)
    {
        note(fmt("erase(%u)", k));
        bool r = c.erase(G::key(k));
        auto i = find(k);
        bool w = i != m.end();
        if (w) m.erase(i);
        CHECK(r == w, "erase", "%s erase returned %d", trace.c_str(), r);
        ev(w ? "erases of present keys" : "erases of absent keys");
    }
    void get(unsigned k, bool copying)
    {
        auto i = find(k);
        bool exp = i != m.end() && dead(*i);
        bool w = i != m.end() && !exp;
        if (copying)
        {
            V before = G::val(4000000 + seq, 3), got(before);
            c.get(G::key(k), got);
            CHECK(got == (w ? i->v : before), w ? "get-value" : exp ? "expired-copied" : "absent-copied", "%s copying get(%u) at %ld gave %s, expected %s", trace.c_str(), k,
                  (long) fake_now, G::str(got).c_str(), w ? G::str(i->v).c_str() : "the caller's value");
        }
        else
        {
            const V *p = c.get(G::key(k));
            if (w) CHECK(p && *p == i->v, p ? "get-value" : "lost", "%s get(%u) at %ld (set %ld) gave %s, expected %s", trace.c_str(), k, (long) fake_now, (long) i->at,
                         p ? G::str(*p).c_str() : "nothing", G::str(i->v).c_str());
            else CHECK(!p, exp ? "expired" : "absent", "%s get(%u) at %ld gave %s", trace.c_str(), k, (long) fake_now, G::str(*p).c_str());
        }
        ev(w ? "lookups that found" : exp ? "lookups of expired entries" : "lookups of absent keys");
        if (w && life && (size_t) (fake_now - i->at) == life) ev("lookups exactly at the limit");
        if (exp) { m.erase(i); ++expired; }
    }
    void report()
    {
        string s; c.dbg(s, (int) (seq & 1));
        size_t a = s.find("nelt_cur="), b = s.find("size_cur=");
        CHECK(a != string::npos && b != string::npos, "report", "report %s", S(s));
        size_t n = strtoull(s.c_str() + a + 9, 0, 10), z = strtoull(s.c_str() + b + 9, 0, 10);
        CHECK(z <= limit, "over-limit", "%s reports %zu bytes, the limit is %zu", trace.c_str(), z, limit);
        CHECK(n == m.size() && z == total(), "totals", "%s reports %zu entries, %zu bytes; expected %zu and %zu", trace.c_str(), n, z, m.size(), total());
    }
    void all(unsigned keys, bool copying)
    {
        for (unsigned k = 0; k < keys; ++k) get(k, copying);
        report();
        size_t t = 0;
        for (auto &e : m) t += e.size;
        CHECK(t <= limit, "over-limit", "%s entries of %zu bytes are returned, the limit is %zu", trace.c_str(), t, limit);
    }
};

template <typename K, typename V> static void history(In &in, size_t limit, size_t life, unsigned keys)
{
    long live = Blob::live;
    static const time_t start[] = { 1000000, 0x7fffffff, 0xffffffff, (time_t) 1 << 40 };
    fake_now = in.chance(1, 20) ? (time_t) in.below(100) : start[in.below(4)] - (time_t) in.below(in.chance(1, 2) ? 100 : 30);
    // values of a class say themselves how big they are: any magnitude costs the same
    static const size_t scales[] = { 13, 257, 65536, (size_t) 1 << 20, (size_t) 1 << 32 };
    size_t scale = limit && std::is_same<V, Blob>::value && in.chance(1, 3) ? scales[in.below(5)] : 1, base = limit;
    if (scale > 1) limit = limit * scale + in.below(3);
    sig(scale);
    {
        World<K, V> w(limit, life);
        unsigned n = 1 + in.below(in.chance(1, 10) ? 400 : 30);
        for (unsigned i = 0; i < n; ++i)
        {
            ++w.seq;
            unsigned k = in.below(keys);
            switch (in.below(prop == 10 ? 12 : 14))
            {
            case 0: case 1: case 2: case 3: case 4:
            {
                size_t s = in.chance(1, 3) ? in.below((unsigned) (base / 2 + 2)) * scale : in.chance(1, 6) ? limit - 1 + in.below(3) : in.below((unsigned) (base / 6 + 2)) * scale;
                if (scale > 1 && s && in.chance(1, 2)) s = s - 1 + in.below(3);
                if (limit == 0) s = in.below(2);
                w.set(k, Gen<K, V>::val(w.seq, s), in.below(2));
                break;
            }
            case 5:
            {
                // the value is another stored one
                const V *p = w.c.get(Gen<K, V>::key(k));
                auto i2 = w.find(k);
                if (i2 != w.m.end() && w.dead(*i2)) { w.m.erase(i2); break; }
                if (p) { ev("sets from a stored value"); w.set(in.chance(1, 4) ? k : in.below(keys), *p, in.below(2)); }
                break;
            }
            case 6: case 7: w.erase(k); break;
            case 8: case 9: w.get(k, false); break;
            case 10: w.get(k, true); break;
            case 11: if (in.chance(1, 4)) { fake_now += in.below(100000); w.note(fmt("at %ld", (long) fake_now)); } break;
            default:
            {
                time_t d = in.chance(1, 2) ? (time_t) in.below(3) : in.chance(1, 2) ? (time_t) std::min<size_t>(life, 1u << 30) + (time_t) in.below(3) - 1 : (time_t) in.below(20);
                if (d < 0) d = 0;
                if (in.chance(1, 10) && fake_now > 100) { fake_now -= d % 50; ev("steps of the clock backwards"); }
                else fake_now += d;
                w.note(fmt("at %ld", (long) fake_now));
                break;
            }
            }
            w.report();
            if (in.chance(1, 8)) w.all(keys, in.below(2));
        }
        w.all(keys, in.below(2));
        if (prop == 10 ? w.dropped : w.expired) mark();
        if (want_sample() && (prop == 10 ? w.dropped : w.expired)) sample("limit %zu life %zu: %s -> %zu entries left", limit, life, w.trace.c_str(), w.m.size());
    }
    CHECK(Blob::live == live, "leak", "%ld values survive their cache", Blob::live - live);
}

// values that own heap memory of their own choosing: what the stored values really take is measured through the cache's own pointers
template <typename V> static size_t held(const V &v) { return sizeof(V) + v.capacity() * sizeof(typename V::value_type); }

template <typename V> static void measured(In &in, size_t limit)
{
    typedef typename V::value_type T;
    struct E { int k; V v; size_t size; };
    std::list<E> m;
    coda_cache<int, V> c(limit, 0);
    string trace;
    unsigned n = 1 + in.below(40), keys = 2 + in.below(12), dropped = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        int k = (int) in.below(keys);
        if (in.chance(1, 8))
        {
            trace += fmt("erase(%d); ", k);
            auto it = m.begin(); while (it != m.end() && it->k != k) ++it;
            bool w = it != m.end();
            if (w) m.erase(it);
            CHECK(c.erase(k) == w, "erase", "%s erase", trace.c_str());
            continue;
        }
        unsigned len = in.chance(1, 3) ? in.below(10) : in.below((unsigned) (limit / sizeof(T) / 2 + 2));
        V v(len, (T) ('a' + i % 26));
        if (in.chance(1, 5)) v.reserve(len + in.below(60));
        CHECK(estimate_capacity(v) == held(v), "estimate", "a value of %zu elements of %zu bytes holding room for %zu is estimated at %zu bytes", v.size(), sizeof(T), v.capacity(),
              (size_t) estimate_capacity(v));
        auto old = m.begin(); while (old != m.end() && old->k != k) ++old;
        size_t most = std::max(v.capacity(), 2 * v.size());
        if (old != m.end()) { most = std::max(most, (old->size - sizeof(V)) / sizeof(T) * 2); m.erase(old); ev("overwrites"); }
        E e = { k, v, 0 };
        m.push_back(e);
        trace += fmt("set(%d,%u); ", k, len); sig(k); sig(len);
        c.set(k, v, in.below(2));
        size_t sum = 0, have = 0; bool seen = false; const E *last = 0;
        for (auto &x : m)
        {
            const V *q = c.get(x.k);
            CHECK(q || !seen, "order", "%s key %d is gone although an entry set earlier is still there", trace.c_str(), x.k);
            if (!q) { last = &x; continue; }
            seen = true; ++have;
            CHECK(*q == x.v, "get-value", "%s get(%d) gave another value", trace.c_str(), x.k);
            x.size = held(*q); sum += x.size;
        }
        CHECK(sum <= limit, "over-limit", "limit %zu, elements of %zu bytes: %s the values stored hold %zu bytes", limit, sizeof(T), trace.c_str(), sum);
        if (last)
        {
            size_t was = last->size ? last->size : sizeof(V) + most * sizeof(T);
            CHECK(sum + was > limit, "needless", "limit %zu: %s key %d (%zu bytes) was dropped with %zu bytes left", limit, trace.c_str(), last->k, was, sum);
            ev("sets that dropped entries"); ++dropped;
            while (m.size() > have) m.pop_front();
        }
        string r; c.dbg(r, 0);
        size_t a = r.find("nelt_cur="), b = r.find("size_cur=");
        CHECK(a != string::npos && b != string::npos, "report", "report %s", S(r));
        CHECK(strtoull(r.c_str() + a + 9, 0, 10) == have && strtoull(r.c_str() + b + 9, 0, 10) == sum, "totals", "%s reports %s for %zu entries holding %zu bytes", trace.c_str(), S(r), have, sum);
    }
    ev("histories of values with buffers");
    if (dropped) mark();
}

struct Own { size_t estimate_capacity() const { return 4711; } };
template <typename T> static void scalar(const char *name) { T v = T(); CHECK(estimate_capacity(v) == sizeof(T), "estimate", "a %s is estimated at %zu bytes", name, (size_t) estimate_capacity(v)); }
template <typename V> static void grown(const char *name)
{
    V v;
    for (int i = 0; i < 70; ++i) { CHECK(estimate_capacity(v) == held(v), "estimate", "a %s of %d elements, capacity %zu, is estimated at %zu bytes", name, i, v.capacity(), (size_t) estimate_capacity(v)); v.push_back(typename V::value_type()); }
}
static void estimates()
{
    scalar<char>("char"); scalar<unsigned char>("unsigned char"); scalar<short>("short"); scalar<unsigned short>("unsigned short"); scalar<int>("int"); scalar<unsigned>("unsigned");
    scalar<long>("long"); scalar<unsigned long>("unsigned long"); scalar<long long>("long long"); scalar<unsigned long long>("unsigned long long"); scalar<float>("float");
    scalar<double>("double"); scalar<long double>("long double"); scalar<char *>("pointer"); scalar<Own *>("pointer"); scalar<const string *>("pointer");
    grown<string>("string"); grown<std::wstring>("wide string"); grown<std::u16string>("16-bit string"); grown<std::u32string>("32-bit string");
    grown<std::vector<char>>("vector of char"); grown<std::vector<int>>("vector of int"); grown<std::vector<long double>>("vector of long double"); grown<std::vector<string>>("vector of strings");
    CHECK(estimate_capacity(Own()) == 4711, "estimate", "a class's own estimate is not used");
}

void vp_case(In &in)
{
    size_t life = prop == 10 ? (in.chance(1, 4) ? 1 + in.below(50) : 0) : in.chance(1, 12) ? 0 : in.chance(1, 12) ? (size_t) 0 - 1 - in.below(3) : 1 + in.below(in.chance(1, 2) ? 3 : 40);
    unsigned keys = 2 + in.below(in.chance(1, 6) ? 100 : 7);
    static const size_t lim[] = { 0, 1, 10, 100, 1000, 5000 };
    size_t limit = lim[in.below(6)] + in.below(4);
    if (prop == 10 && in.chance(1, 4))
    {
        size_t l = 40 + in.below(in.chance(1, 2) ? 300 : 4000);
        sig(l);
        switch (in.below(5))
        {
        case 0: measured<string>(in, l); break;
        case 1: measured<std::wstring>(in, l); break;
        case 2: measured<std::u16string>(in, l); break;
        case 3: measured<std::vector<int>>(in, l); break;
        default: measured<std::vector<double>>(in, l); break;
        }
        return;
    }
    sig(limit); sig(life);
    switch (in.below(6))
    {
    case 0: case 1: history<string, Blob>(in, limit, life, keys); break;
    case 2: case 3: history<int, Blob>(in, limit, life, keys); break;
    case 4: history<int, int>(in, in.below(60), life, keys); break;
    default: history<string, string>(in, in.below(500), life, keys); break;
    }
}

// exhaustive: every sequence of operations over three keys
static const int NOPS = 18;
static unsigned depth(bool th) { return th ? 5 : 4; }
uint64_t vp_exh_count(bool th) { uint64_t n = 1; for (unsigned i = 0; i < depth(th); ++i) n *= NOPS; return n; }
void vp_exh(uint64_t i)
{
    fake_now = 1000;
    if (i == 0 && prop == 10) estimates();
    World<int, Blob> w(10, prop == 10 ? 0 : 2);
    static const size_t size[] = { 4, 6, 11 };
    for (unsigned n = depth(opt.thorough); n--; i /= NOPS)
    {
        unsigned o = i % NOPS;
        ++w.seq;
        if (o < 12) w.set(o & 1, Blob(fmt("v%u", w.seq), size[o / 4]), (o >> 1) & 1);
        else if (o < 14) w.erase(o - 12);
        else if (o < 15) w.get(0, w.seq & 1);
        else if (o < 16) w.set(2, Blob("c", 2), true);
        else if (o < 17) { fake_now += 1; w.note("+1"); }
        else { fake_now += 2; w.note("+2"); }
        w.report();
    }
    for (unsigned k = 0; k < 3; ++k) w.get(k, i & 1);
    w.report();
    if (prop == 10 ? w.dropped : w.expired) mark();
}

void vp_init() { prop = atoi(opt.str("prop", "C10").c_str() + 1); }
