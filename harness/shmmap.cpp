// C18 a shared map against an ordinary one.
#define VP_SYSWRAP_IMPL
#include "shmmap.hpp"

static IMap *make(unsigned t)
{
    switch (t)
    {
    case 0: return new MapOf<uint64_t, 2, 1>;
    case 1: return new MapOf<uint32_t, 2, 2>;
    case 2: return new MapOf<B3, 3, 2>;
    case 3: return new MapOf<uint8_t, 1, 1>;
    case 4: return new MapOf<uint64_t, 4, 3>;
    case 5: return new MapOf<W5, 16, 1>;
    case 6: return new MapOf<W5, 16, 4>;
    case 7: return new MapOf<Big, 5, 3>;
    case 8: return new MapOf<uint8_t, 300, 16>;
    case 9: return new MapOf<P13, 1000, 7>;
    case 10: return new MapOf<uint64_t, 255, 1021>;
    case 11: return new MapOf<uint16_t, 257, 2>;
    case 12: return new MapOf<Big, 60, 64>;
    case 14: return new MapOf<uint64_t, 70000, 66000>;
    case 15: return new MapOf<B3, 66500, 140001>;
    default: return new MapOf<uint64_t, 5000, 512>;
    }
}
enum { TYPES = 14, SMALL = 8 };

struct World
{
    Key key; std::vector<IMap *> m; Model model; string log; unsigned type; uint64_t h; bool full, erased_full, refill, collide;
    World(unsigned t, unsigned objects): type(t), h(t), full(false), erased_full(false), refill(false), collide(false)
    { for (unsigned i = 0; i < objects; ++i) { m.push_back(make(t)); m.back()->connect(key.c()); } }
    ~World() { for (IMap *x : m) delete x; }
    IMap *one(unsigned i) { return m[i % m.size()]; }
    size_t cap() { return (size_t) m[0]->N(); }
    void op(const string &s) { if (log.size() < 1500) log += s + ' '; h = hash(s, h); }
    const char *where() { return log.c_str(); }
    bool can(uint64_t k) { return model.count(k) || model.size() < cap(); }
    void in(IMap *x, uint64_t k, uint64_t st, bool lockd)
    {
        st = cut(st, x->vsize()); op(fmt("insert(%llu)", (unsigned long long) k));
        bool expect = can(k), had = model.count(k) != 0, r;
        if (lockd) { x->lock(true); r = x->uinsert(k, st); x->unlock(true); } else r = x->insert(k, st);
        if (expect && !had) refill |= erased_full;
        if (expect) model[k] = st; else { full = true; ev("inserts refused: full"); }
        if (had) ev("overwrites");
        CHECK(r == expect, expect ? (had ? "overwrite-refused" : "insert-refused") : "insert-beyond-capacity", "an insert %s with %zu of %zu entries: %s", r ? "succeeds" : "fails", model.size(), cap(), where());
    }
    void er(IMap *x, uint64_t k, bool lockd)
    {
        op(fmt("erase(%llu)", (unsigned long long) k));
        erased_full |= model.size() == cap() && model.count(k);
        bool expect = model.erase(k) != 0, r;
        if (lockd) { x->lock(true); r = x->uerase(k); x->unlock(true); } else r = x->erase(k);
        CHECK(r == expect, "erase-result", "erase returns %d for %s key: %s", r, expect ? "a present" : "an absent", where());
    }
    void rd(IMap *x, uint64_t k, bool lockd)
    {
        uint64_t s = 0; bool whole, r;
        if (lockd) { x->lock(false); r = x->uread(k, s, whole); x->unlock(false); } else r = x->read(k, s, whole);
        auto i = model.find(k);
        CHECK(r == (i != model.end()), "read-presence", "read of key %llu returns %d: %s", (unsigned long long) k, r, where());
        CHECK(!r || (whole && s == i->second), "read-value", "read of key %llu gives a wrong value: %s", (unsigned long long) k, where());
    }
    void all(IMap *x)
    {
        CHECK(x->size() == model.size(), "size", "size is %zu, not %zu: %s", x->size(), model.size(), where());
        CHECK(x->capacity() == cap(), "capacity", "capacity is %zu", x->capacity());
        std::vector<KV> v; bool whole;
        x->lock(false); bool ends = x->each(v, cap() * 2 + 10, whole); x->unlock(false);
        CHECK(ends, "iteration-endless", "iteration does not end: %s", where());
        Model got(v.begin(), v.end());
        CHECK(v.size() == got.size(), "iteration-repeats", "iteration shows %zu entries but %zu keys: %s", v.size(), got.size(), where());
        CHECK(whole && got == model, "iteration-contents", "iteration shows %zu entries, %zu expected, or other values: %s", v.size(), model.size(), where());
        ev("entries iterated", v.size());
    }
};

void vp_init() { shm_start(); }

static uint64_t pick_key(In &in, World &w, unsigned kind, unsigned range)
{
    uint64_t H = (uint64_t) w.m[0]->H();
    switch (kind)
    {
    case 0: return in.below(range);
    case 1: w.collide = true; return 3 + H * in.below(range);                                  // one bucket
    case 2: return ~0ull - in.below(range);
    case 3: return (1ull << 32) * in.below(range) + in.below(2);
    case 4: return (uint64_t) in.below(range) * 0x9E3779B97F4A7C15ull;
    default: { static const uint64_t k[] = { 0, 1, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1 }; return k[in.below(10)]; }
    }
}

// more objects and buckets than 16 bits count, keys in the last buckets first
static void large(In &in)
{
    World w(14 + in.below(2), 2); uint64_t H = (uint64_t) w.m[0]->H(), N = w.cap(), off = in.below(3) ? H - 1 - in.below(100) : in.u32(), st = 1;
    auto bulk = [&](uint64_t from, uint64_t n, uint64_t step)
    {
        std::vector<KV> v; bool ok = true;
        for (uint64_t i = 0; i < n; ++i) { uint64_t k = from + i * step; v.push_back(KV(k, cut(mix(7, st++), w.m[0]->vsize()))); if (w.can(k)) w.model[k] = v.back().second; else ok = false; }
        w.op(fmt("bulk-insert(%llu of %llu+)", (unsigned long long) n, (unsigned long long) from));
        bool r = w.one(in.u8())->insert(v);
        CHECK(r == ok, "bulk-insert-result", "a bulk insert that should %s returns %d: %s", ok ? "succeed" : "fail in part", r, w.where());
    };
    w.in(w.m[0], off, 5, false); w.all(w.m[1]);
    bulk(off, 3, 1); w.all(w.m[0]);
    bulk(off + 7 * H, N - w.model.size() - 2, 1); w.all(w.m[1]);
    bulk(off + 1, 5, H * 1000000); w.all(w.m[0]);
    std::vector<uint64_t> e; bool all = true;
    for (auto &q : w.model) if (st % 3 ? e.size() < 40000 : q.first % 3) e.push_back(q.first);
    if (in.chance(1, 2)) std::reverse(e.begin(), e.end());
    for (uint64_t k : e) all &= w.model.erase(k) != 0;
    w.op(fmt("bulk-erase(%zu)", e.size()));
    CHECK(w.m[1]->erase(e) == all, "bulk-erase-result", "a bulk erase of present keys fails: %s", w.where());
    w.all(w.m[0]);
    bulk(off + 3 * H + 11, e.size() + 3, 1); w.all(w.m[1]);
    unsigned n = 0;
    for (auto &q : w.model) if (++n % 9 == 0) { uint64_t x; bool whole; CHECK(w.m[n & 1]->read(q.first, x, whole) && whole && x == q.second, "read-value", "read of key %llu gives nothing or a wrong value: %s", (unsigned long long) q.first, w.where()); }
    w.op("clear"); w.model.clear(); w.m[0]->clear(); w.all(w.m[1]);
    bulk(off, N + 1, 1); w.all(w.m[0]);
    sig(w.h); mark(); ev("maps of more than 65536 entries");
}

void vp_case(In &in)
{
    if (opt.phase != "fuzz" && in.chance(1, 250)) return large(in);
    unsigned t = in.chance(3, 4) ? in.below(SMALL) : in.below(TYPES);
    World w(t, 1 + in.below(2));
    unsigned kind = in.below(6), range = (unsigned) (w.cap() + 1 + in.below((uint32_t) w.cap() + 3)); bool mixk = in.chance(1, 3);
    unsigned steps = t < SMALL ? 5 + in.below(120) : 20 + in.below(400); unsigned bias = in.below(3); uint64_t st = 1;
    for (unsigned n = 0; n < steps && in.more(); ++n)
    {
        IMap *x = w.one(in.u8()); bool ld = in.chance(1, 4);
        if (mixk) kind = in.below(6);
        unsigned o = in.below(100);
        if (bias == 1) o = o * 2 / 3; else if (bias == 2) o = 15 + o * 5 / 6;
        if (o < 35) w.in(x, pick_key(in, w, kind, range), mix(t, st++), ld);
        else if (o < 55) w.er(x, w.model.size() && in.chance(2, 3) ? (in.chance(1, 2) ? w.model.begin()->first : w.model.rbegin()->first) : pick_key(in, w, kind, range), ld);
        else if (o < 68) w.rd(x, pick_key(in, w, kind, range), ld);
        else if (o < 76)
        {
            // bulk insert: one after the other, all of them tried
            std::vector<KV> v; unsigned k = in.chance(1, 4) ? in.below(3) : in.below((uint32_t) std::min<size_t>(w.cap() + 2, 200)); size_t ok = 0;
            for (unsigned i = 0; i < k; ++i) v.push_back(KV(pick_key(in, w, kind, range), cut(mix(t, st++), x->vsize())));
            w.op(fmt("bulk-insert(%u)", k));
            for (auto &q : v) { w.h = mix(w.h, q.first); if (w.can(q.first)) { w.model[q.first] = q.second; ++ok; } else w.full = true; }
            bool r = x->insert(v);
            CHECK(r == (ok == v.size()), "bulk-insert-result", "a bulk insert of which %zu of %zu succeed returns %d: %s", ok, v.size(), r, w.where());
            ev("bulk inserts"); if (ok && ok < v.size()) ev("bulk inserts partly refused");
        }
        else if (o < 84)
        {
            std::vector<uint64_t> v; unsigned k = in.below((uint32_t) std::min<size_t>(w.cap() + 2, 200)); size_t ok = 0;
            w.op(fmt("bulk-erase(%u)", k)); w.erased_full |= w.model.size() == w.cap();
            for (unsigned i = 0; i < k; ++i) { v.push_back(pick_key(in, w, kind, range)); w.h = mix(w.h, v.back()); ok += w.model.erase(v.back()); }
            bool r = x->erase(v);
            CHECK(r == (ok == v.size()), "bulk-erase-result", "a bulk erase of which %zu of %zu succeed returns %d: %s", ok, v.size(), r, w.where());
            ev("bulk erases");
        }
        else if (o < 86) { w.op("clear"); w.erased_full |= w.model.size() == w.cap(); w.model.clear(); x->clear(); ev("clears"); }
        else if (o < 91)
        {
            // fill to the brim, then one more
            w.op("fill");
            uint64_t k = in.u32(); size_t guard = 0;
            while (w.model.size() < w.cap() && guard++ < 2 * w.cap() + 20) w.in(x, k += 1 + (kind == 1 ? (uint64_t) x->H() - 1 : 0), mix(t, st++), false);
            while (w.model.count(k)) ++k;
            w.in(x, k, 5, false);
        }
        else if (o < 93)
        {
            w.op("drain"); w.erased_full |= w.model.size() == w.cap(); bool back = in.chance(1, 2);
            while (w.model.size()) w.er(x, back ? w.model.rbegin()->first : w.model.begin()->first, false);
        }
        else if (o < 96) w.all(x);
        else if (o < 98 && w.m.size() > 1) { w.op("reconnect"); x->disconnect(); x->connect(w.key.c()); ev("reconnects within a history"); }
        else for (auto &q : Model(w.model)) w.rd(x, q.first, false);
        if (w.cap() <= 16) { w.all(w.one(in.u8())); }
    }
    for (IMap *x : w.m) w.all(x);
    for (auto &q : Model(w.model)) w.rd(w.m[0], q.first, false);
    // in the end all the room is still there
    while (w.model.size()) w.er(w.m[0], w.model.begin()->first, false);
    for (uint64_t k = 0; k < w.cap(); ++k) w.in(w.m[0], k * 31, k, false);
    w.in(w.m[0], 0x123456789ull, 1, false);
    w.all(w.m[0]);
    w.model.clear(); w.m[0]->clear();
    for (uint64_t k = 0; k < w.cap(); ++k) w.in(w.m[0], k * 31 + 7, k, false);
    w.in(w.m[0], 0x123456789ull, 1, false);
    w.all(w.m[0]);
    sig(w.h); mark(); ev("histories");
    if (w.refill) ev("histories with slots used again at capacity");
    if (want_sample()) sample("capacity %d, %d buckets, %zu byte values: %s", w.m[0]->N(), w.m[0]->H(), w.m[0]->vsize(), S(w.log));
}

// every history of L operations (insert, erase, overwrite through insert, of three keys that may collide; clear) on the smallest maps
static const unsigned OPS = 8;
static unsigned L() { return opt.thorough ? 6 : 4; }
static uint64_t pw() { uint64_t r = 1; for (unsigned i = 0; i < L(); ++i) r *= OPS; return r; }
uint64_t vp_exh_count(bool) { return pw() * 4; }
void vp_exh(uint64_t index)
{
    unsigned t = (unsigned) (index / pw()); uint64_t n = index % pw();
    World w(t, 1); uint64_t st = 10;
    for (unsigned i = 0; i < L(); ++i, n /= OPS)
    {
        unsigned o = (unsigned) (n % OPS);
        if (o < 4) w.in(w.m[0], o * 2, st++, false);
        else if (o < 7) w.er(w.m[0], (o - 4) * 2, false);
        else { w.op("clear"); w.model.clear(); w.m[0]->clear(); }
        w.all(w.m[0]);
    }
    for (unsigned k = 0; k < 4; ++k) w.rd(w.m[0], k * 2, false);
    while (w.model.size()) w.er(w.m[0], w.model.begin()->first, false);
    for (uint64_t k = 0; k < w.cap(); ++k) w.in(w.m[0], 100 + k, k, false);
    w.in(w.m[0], 1, 1, false); w.all(w.m[0]);
    sig(mix(t, index)); mark(); ev("short histories");
}
void vp_custom() { }
