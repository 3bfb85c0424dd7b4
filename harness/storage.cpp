// C15 string storage: insertion histories against a map, with every slot filled and re-checked.
#include "common.hpp"
#include <coda/stringstorage.h>
using namespace vp;
using std::string;

static const size_t BLOCK = 4096;
static uint8_t pat(const string &s, size_t i) { return (uint8_t) (hash(s) >> (8 * (i & 7))) ^ (uint8_t) (i * 37); }

struct World
{
    string_storage ss; size_t uds;
    std::map<string, uint8_t *> m;
    std::map<uint8_t *, string> at;
    std::vector<string> order;
    string trace;
    bool shared;                     // some pair with a long common prefix
    explicit World(size_t u): uds(u), shared(false) { string_storage_init(&ss, u); }
    ~World() { string_storage_free(&ss); }

    bool add(const string &s)
    {
        if (trace.size() < 1500) trace += show(s, 60) + fmt("[%zu] ", s.size());
        ExactZ t(s);
        uint8_t *p = (uint8_t *) string_storage_add(&ss, t.p);
        if (uds >= BLOCK || s.size() + 1 + uds > BLOCK) { CHECK(!p, "too-long", "a string of %zu bytes with %zu bytes of data was accepted", s.size(), uds); ev("refused strings"); return false; }
        if (!p && s.size() + 1 + uds == BLOCK) { ev("refused strings"); return false; }   // one byte of bookkeeping
        CHECK(p, "refused", "a string of %zu bytes with %zu bytes of data was refused", s.size(), uds);
        auto i = m.find(s);
        if (i != m.end())
        {
            CHECK(i->second == p, "moved", "%s: adding %s again gave another slot", trace.c_str(), S(s));
            ev("repeated additions");
            return true;
        }
        // the slot does not overlap any other
        auto n = at.lower_bound(p);
        if (n != at.end()) CHECK(n->first != p && p + uds <= n->first, "overlap", "%s: the slots of %s and %s overlap (%zu bytes each, %td apart)", trace.c_str(), S(s), S(n->second), uds, n->first - p);
        if (n != at.begin()) { --n; CHECK(n->first + uds <= p, "overlap", "%s: the slots of %s and %s overlap", trace.c_str(), S(s), S(n->second)); }
        for (size_t k = 0; k < uds; ++k) CHECK(p[k] == 0, "not-zeroed", "%s: byte %zu of the new slot of %s is %u", trace.c_str(), k, S(s), p[k]);
        for (size_t k = 0; k < uds; ++k) p[k] = pat(s, k);
        m[s] = p; at[p] = s; order.push_back(s);
        ev("new strings");
        if (s.size() > 255) ev("new strings above 255 bytes");
        return true;
    }
    struct Seen { std::map<string, std::vector<void *> > m; World *w; unsigned n; };
    static void cb(void *u, const char *k, void *v) { Seen *s = (Seen *) u; ++s->n; s->m[k].push_back(v); }
    void check()
    {
        for (auto &i : m)
        {
            for (size_t k = 0; k < uds; ++k) CHECK(i.second[k] == pat(i.first, k), "disturbed", "%s: the data of %s changed", trace.c_str(), S(i.first));
        }
        Seen s; s.w = this; s.n = 0;
        string_storage_enumerate(&ss, cb, &s);
        CHECK(s.n == m.size(), "enum-count", "%s: enumeration reported %u strings, %zu are stored", trace.c_str(), s.n, m.size());
        for (auto &i : m)
        {
            if (i.first.size() > 255) continue;
            auto j = s.m.find(i.first);
            CHECK(j != s.m.end(), "enum-missing", "%s: enumeration does not report %s", trace.c_str(), S(i.first));
            CHECK(std::count(j->second.begin(), j->second.end(), (void *) i.second) == 1, "enum-slot", "%s: enumeration reports %s %zu times, not exactly once with its slot", trace.c_str(),
                  S(i.first), j->second.size());
            // a second report of the same text can only come from a longer string cut to 255
            if (i.first.size() < 255) CHECK(j->second.size() == 1, "enum-twice", "%s: enumeration reports %s %zu times", trace.c_str(), S(i.first), j->second.size());
        }
        size_t nth = 0;
        for (auto &i : m)
        {
            // of very many every seventh, and those of the last additions
            if (m.size() > 20000 && ++nth % 7 && nth + 20 < m.size()) continue;
            ExactZ t(i.first);
            CHECK(string_storage_add(&ss, t.p) == i.second, "moved", "%s: adding %s again gave another slot", trace.c_str(), S(i.first));
        }
        ev("enumerations");
        ev("slots re-checked", m.size());
    }
};

static size_t gen_len(In &in)
{
    static const size_t b[] = { 0, 1, 7, 8, 9, 10, 16, 17, 18, 26, 27, 246, 247, 254, 255, 256, 257, 263, 264, 265, 300, 511, 512, 513, 520, 768, 1024 };
    return in.chance(1, 2) ? in.below(14) : in.chance(1, 2) ? b[in.below(sizeof(b) / sizeof(*b))] : in.below(40);
}
static string tail(In &in, size_t n, const char *alpha) { return n > 40 && in.chance(2, 3) ? string(n, alpha[in.below(2)]) : in.bytes(n, alpha); }

// more strings below one prefix than 16 bits count, added in ascending order so that none has to be moved
static void many(In &in)
{
    World w(in.below(2) * 4); unsigned n = 65500 + in.below(3000); string pre = in.chance(1, 2) ? "" : "a common prefix ";
    if (!pre.empty()) w.add(pre);
    for (unsigned i = 0; i < n; ++i) w.add(pre + fmt("%c%c%c%c", 33 + i / 40 / 40 / 40, 40 + i / 1600 % 40, 40 + i / 40 % 40, 40 + i % 40));
    sig(n); sig(w.uds); w.check(); mark();
    ev("storages of more than 65536 strings below one prefix");
}

void vp_case(In &in)
{
    if (in.chance(1, 6000) && opt.phase != "fuzz") return many(in);
    static const size_t uds[] = { 0, 1, 4, 8, 16, 100, 4000, 4080, 4094, 4095, 4096, 5000, (size_t) -1, (size_t) -2, (size_t) -200 };
    World w(in.chance(1, 8) ? uds[in.below(15)] : uds[in.below(6)]);
    static const char *const al[] = { "ab", "a\xff", "abcdefghijklmnopqrstuvwxyz0123456789", "a" };
    const char *alpha = in.pick(al);
    sig(w.uds);
    unsigned n = 1 + in.below(in.chance(1, 8) ? 300 : 24);
    for (unsigned i = 0; i < n; ++i)
    {
        string s;
        switch (in.below(8))
        {
        case 0: s = tail(in, gen_len(in), alpha); break;
        case 1: s = in.bytes(in.below(30)); for (auto &c : s) if (!c) c = 1; break;
        case 2: if (!w.order.empty()) s = w.order[in.below(w.order.size())]; break;
        case 3:
            s = string(in.chance(1, 2) ? (size_t) std::max<long>(0, (long) BLOCK - (long) std::min<size_t>(w.uds, BLOCK) - 4 + (long) in.below(6)) : in.len(4200), 'a');
            if (w.uds > BLOCK && s.size() > 5000) s.resize(in.below(300), 'q');
            if (in.chance(1, 2)) s += in.bytes(in.below(3), alpha);
            if (!in.chance(1, 4)) s.resize(std::min<size_t>(s.size(), 300));
            break;
        default:
            if (!w.order.empty())
            {
                s = w.order[in.below(w.order.size())];
                static const size_t cut[] = { 8, 9, 10, 18, 255, 256, 257, 264, 265 };
                size_t c = in.chance(1, 3) ? cut[in.below(9)] : s.size() - std::min<size_t>(s.size(), in.below(14));
                if (c < s.size()) { s.resize(c); w.shared |= c > 8; }
                else w.shared |= s.size() > 8;
            }
            s += tail(in, gen_len(in), alpha);
        }
        for (auto &c : s) if (!c) c = 2;
        sig(hash(s));
        w.add(s);
    }
    w.check();
    if (w.m.size() > 1) mark();
    if (w.shared) ev("histories with long shared prefixes");
    if (want_sample() && w.shared && w.m.size() > 2) sample("%zu strings, %zu bytes of data each: %s", w.m.size(), w.uds, w.trace.substr(0, 300).c_str());
}

// exhaustive: every order of additions of strings built from nine-byte pieces
static std::vector<string> words(bool th)
{
    static const string A(9, 'a'), B = string(8, 'a') + "b", C(9, 'b');
    std::vector<string> v = { "", "a", A, A + "a", A + "b", A + "c", A + A, A + A + "a", A + A + "b", A + C, A + C + "a", A + C + A, C, C + "a", C + C, B, B + A, A + B + "b",
                              string(255, 'a'), string(265, 'a'), string(266, 'a') + "b", string(8, 'a') };
    if (!th) return v;
    v.push_back(A + A + A); v.push_back(A + A + A + "b"); v.push_back(string(520, 'a')); v.push_back(C + "aa"); v.push_back(A + C + C);
    return v;
}
static std::vector<string> W;
static unsigned depth(bool th) { return th ? 5 : 4; }
uint64_t vp_exh_count(bool th) { uint64_t n = 1, k = words(th).size(); for (unsigned i = 0; i < depth(th); ++i) n *= k; return n; }
void vp_exh(uint64_t i)
{
    if (W.empty()) W = words(opt.thorough);
    World w(4);
    for (unsigned n = depth(opt.thorough); n--; i /= W.size()) { w.add(W[i % W.size()]); sig(i % W.size()); }
    w.check();
    if (w.m.size() > 1) mark();
}
void vp_init() { }
