// C36 shared pools and stacks used directly: histories over several attached objects against a model of slots.
#include "common.hpp"
#include <coda/shm_pool.hpp>
#include <exception>
#include <deque>
using namespace vp;
using std::string;

struct Odd { uint8_t b[13]; bool operator==(const Odd &o) const { return !memcmp(b, o.b, sizeof b); } };
template <typename T> struct Val { static T v(uint64_t n) { return (T) (n * 0x9E3779B97F4A7C15ull >> 3); } };
template <> struct Val<Odd> { static Odd v(uint64_t n) { Odd o; Rng r(n); for (int i = 0; i < 13; ++i) o.b[i] = (uint8_t) r.next(); return o; } };

// the memory: blocks of exactly the sizes asked for, or a file mapped at several addresses
struct Mem
{
    std::vector<size_t> sizes; bool file; int fd; size_t total; std::vector<std::vector<uint8_t *> > at; std::vector<void *> maps;
    Mem(const std::vector<size_t> &z, bool f, int views, bool separate): sizes(z), file(f), fd(-1), total(0)
    {
        std::vector<size_t> off; for (size_t s : sizes) { off.push_back(total); total += (s + 63) / 64 * 64 + (separate ? 192 : 0); }
        if (file) { fd = memfd_create("pool", MFD_CLOEXEC); HCHECK(fd >= 0 && !ftruncate(fd, (off_t) total + 64), "memory file"); }
        for (int v = 0; v < views; ++v)
        {
            std::vector<uint8_t *> a;
            if (file) { void *p = mmap(0, total + 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); HCHECK(p != MAP_FAILED, "map"); maps.push_back(p); for (size_t o : off) a.push_back((uint8_t *) p + o); }
            else if (v) a = at[0];
            else for (size_t s : sizes) { uint8_t *p = (uint8_t *) malloc(s ? s : 1); memset(p, 0, s); a.push_back(p); }
            at.push_back(a);
        }
    }
    ~Mem() { if (file) { for (void *p : maps) munmap(p, total + 64); close(fd); } else for (uint8_t *p : at[0]) free(p); }
    string all() const { string s; for (size_t i = 0; i < sizes.size(); ++i) s.append((char *) at[0][i], sizes[i]); return s; }
    // between the blocks nothing is ever written
    void clean(const char *what) const { if (!file) return; const uint8_t *b = (const uint8_t *) maps[0]; size_t pos = 0; for (size_t i = 0; i < sizes.size(); ++i) { size_t end = (size_t) (at[0][i] - b) + sizes[i], next = i + 1 < sizes.size() ? (size_t) (at[0][i + 1] - b) : total + 64; for (pos = end; pos < next; ++pos) CHECK(!b[pos], "outside", "%s writes outside its memory", what); } }
};

enum { VIEWS = 3 };
template <typename T, int N> struct StackCase
{
    typedef shm::stack<T, N> S;
    static void run(In &in, unsigned steps)
    {
        S *s[VIEWS]; std::vector<T> m; S probe; Mem mem({ probe.header_size(), probe.data_size() }, in.chance(1, 2), VIEWS, true);
        CHECK(probe.data_size() >= sizeof(T) * N, "size", "%zu bytes for %d elements of %zu", probe.data_size(), N, sizeof(T));
        string log = fmt("stack of %d elements of %zu bytes: ", N, sizeof(T)); uint64_t id = 1; bool full = false;
        for (int i = 0; i < VIEWS; ++i) { s[i] = new S; s[i]->attach(mem.at[(size_t) i][0], mem.at[(size_t) i][1]); }
        for (unsigned n = 0; n < steps && in.more(); ++n)
        {
            int i = (int) in.below(VIEWS);
            switch (in.below(8))
            {
            case 0: case 1: case 2: case 3:
            {
                unsigned k = in.chance(1, 6) ? (unsigned) N + 1 : 1 + in.below(3);
                for (; k; --k) { T v = Val<T>::v(id++); bool r = s[i]->push(v), e = m.size() < (size_t) N; if (log.size() < 600) log += fmt("push%d ", i); CHECK(r == e, e ? "push-refused" : "push-beyond", "%s: a push returns %d with %zu of %d elements", log.c_str(), r, m.size(), N); if (e) m.push_back(v); else full = true; }
                break;
            }
            case 4: case 5: for (unsigned k = in.below(4); k && !m.empty(); --k) { if (log.size() < 600) log += fmt("pop%d ", i); T v = s[i]->pop(); CHECK(v == m.back(), "order", "%s: another element than the last comes back", log.c_str()); m.pop_back(); } break;
            case 6: if (in.chance(1, 4)) { log += fmt("clear%d ", i); s[i]->clear(); m.clear(); } break;
            default:
                log += fmt("reattach%d ", i); if (in.chance(1, 2)) s[i]->detach(); else { delete s[i]; s[i] = new S; }
                if (in.chance(1, 3))
                {
                    string before = mem.all(); bool threw = false; shm::stack<T, N + 1> w;
                    try { if (in.chance(1, 2)) w.attach(mem.at[0][0], mem.at[0][1]); else { threw = attach_odd(mem.at[0][0], mem.at[0][1]); } } catch (const std::exception &) { threw = true; }
                    CHECK(threw, "mismatch-accepted", "%s: a stack of another geometry attaches", log.c_str()); CHECK(before == mem.all(), "mismatch-writes", "%s: a refused attachment changes the memory", log.c_str()); ev("mismatched attachments");
                }
                s[i]->attach(mem.at[(size_t) i][0], mem.at[(size_t) i][1]); ev("reattachments");
            }
            for (int j = 0; j < VIEWS; ++j) CHECK(s[j]->used() == m.size() && s[j]->empty() == m.empty(), "size", "%s: %zu elements used, %zu expected", log.c_str(), s[j]->used(), m.size());
        }
        while (!m.empty()) { T v = s[0]->pop(); CHECK(v == m.back(), "order", "%s: in the end another element than the last comes back", log.c_str()); m.pop_back(); }
        CHECK(s[1]->empty(), "size", "%s: not empty in the end", log.c_str());
        mem.clean("a stack"); for (int i = 0; i < VIEWS; ++i) delete s[i];
        sig(hash(log, mix(N, sizeof(T)))); mark(); ev("histories of a stack"); if (full) ev("histories with a full stack");
        if (want_sample()) sample("%s", log.substr(0, 200).c_str());
    }
    struct Wide { uint8_t b[sizeof(T) + 1]; };
    static bool attach_odd(void *a, void *b) { shm::stack<Wide, N> w; try { w.attach(a, b); } catch (const std::exception &) { return true; } return false; }
};

template <typename T, int N> struct PoolCase
{
    typedef shm::pool<T, N> Pl;
    struct Wide { uint8_t b[sizeof(T) + 1]; };
    static void run(In &in, unsigned steps, const std::vector<uint8_t> *script = 0)
    {
        Pl *s[VIEWS], probe; Mem mem({ probe.header_size(), probe.stack_size(), probe.data_size() }, script ? false : in.chance(1, 2), VIEWS, true);
        CHECK(probe.data_size() >= sizeof(T) * N, "size", "%zu bytes for %d objects of %zu", probe.data_size(), N, sizeof(T));
        string log = fmt("pool of %d objects of %zu bytes: ", N, sizeof(T)); uint64_t id = 1; bool full = false, again = false; uint64_t h = mix(N, sizeof(T));
        std::map<uint32_t, T> m;            // allocated, with contents
        std::set<uint32_t> ever;
        auto data = [&](int v) { return (T *) mem.at[(size_t) v][2]; };
        auto alloc = [&](int i) {
            uint32_t k = s[i]->allocate(); bool e = m.size() < (size_t) N; if (log.size() < 600) log += fmt("allocate%d=%d ", i, (int) k);
            h = mix(h, k);
            if (!e) { CHECK(k == (uint32_t) -1, "beyond-capacity", "%s: %u is allocated though all %d are", log.c_str(), k, N); full = true; return; }
            CHECK(k != (uint32_t) -1, "capacity-lost", "%s: nothing is allocated though only %zu of %d are", log.c_str(), m.size(), N);
            CHECK(k < (uint32_t) N, "out-of-range", "%s: index %u of %d", log.c_str(), k, N);
            CHECK(!m.count(k), "twice", "%s: index %u is allocated twice", log.c_str(), k);
            again |= !ever.insert(k).second; T v = Val<T>::v(id++); data(i)[k] = v; m[k] = v;
        };
        auto give = [&](int i, unsigned which) {
            if (m.empty()) return; auto x = m.begin(); if (N < 1000) std::advance(x, which % m.size()); else { x = m.lower_bound((uint32_t) (which * 2654435761u % (unsigned) N)); if (x == m.end()) x = m.begin(); } uint32_t k = x->first; if (log.size() < 600) log += fmt("free%d(%u) ", i, k);
            CHECK(s[i]->free(k), "free-refused", "%s: freeing %u fails", log.c_str(), k); m.erase(x); h = mix(h, ~(uint64_t) k);
        };
        for (int i = 0; i < VIEWS; ++i) { s[i] = new Pl; s[i]->attach(mem.at[(size_t) i][0], mem.at[(size_t) i][1], mem.at[(size_t) i][2]); }
        for (unsigned n = 0; n < steps && (script || in.more()); ++n)
        {
            int i = script ? (int) (n % VIEWS) : (int) in.below(VIEWS); unsigned o = script ? (*script)[n] : in.below(16);
            if (script) switch (o)
            {
            case 0: alloc(i); break;
            case 1: give(i, 0); break;
            case 2: give(i, (unsigned) m.size() - 1); break;
            default: log += fmt("clear%d ", i); s[i]->clear(); m.clear(); h = mix(h, 3);
            }
            else if (o < 7) for (unsigned k = in.chance(1, 8) ? (unsigned) N + 1 : 1 + in.below(3); k; --k) alloc(i);
            else if (o < 12) for (unsigned k = in.chance(1, 12) ? (unsigned) m.size() : in.below(4); k; --k) give(i, in.u16());
            else if (o < 13) { if (in.chance(1, 3)) { log += fmt("clear%d ", i); s[i]->clear(); m.clear(); h = mix(h, 3); ev("pools cleared"); } }
            else if (o < 14)
            {
                string before = mem.all(); bool threw = false;
                try { if (in.chance(1, 2)) { shm::pool<T, N + 1> w; w.attach(mem.at[0][0], mem.at[0][1], mem.at[0][2]); } else { shm::pool<Wide, N> w; w.attach(mem.at[0][0], mem.at[0][1], mem.at[0][2]); } } catch (const std::exception &) { threw = true; }
                CHECK(threw, "mismatch-accepted", "%s: a pool of another geometry attaches", log.c_str()); CHECK(before == mem.all(), "mismatch-writes", "%s: a refused attachment changes the memory", log.c_str()); ev("mismatched attachments");
            }
            else { log += fmt("reattach%d ", i); if (in.chance(1, 2)) s[i]->detach(); else { delete s[i]; s[i] = new Pl; } s[i]->attach(mem.at[(size_t) i][0], mem.at[(size_t) i][1], mem.at[(size_t) i][2]); ev("reattachments"); }
            for (int j = 0; j < VIEWS; ++j) CHECK(s[j]->allocated_objects() == m.size(), "size", "%s: %zu objects allocated, %zu expected", log.c_str(), s[j]->allocated_objects(), m.size());
            if (N < 100 || (N < 1000 && n % 16 == 0)) for (auto &x : m) CHECK(data(0)[x.first] == x.second, "contents", "%s: object %u has changed", log.c_str(), x.first);
        }
        for (auto &x : m) CHECK(data(1)[x.first] == x.second, "contents", "%s: in the end object %u has changed", log.c_str(), x.first);
        // all that is not allocated can still be had
        while (m.size() < (size_t) N) alloc(0);
        alloc(1); mem.clean("a pool"); for (int i = 0; i < VIEWS; ++i) delete s[i];
        sig(h); mark(); ev(script ? "short histories of a pool" : "histories of a pool"); if (full) ev("attempts on a pool all allocated"); if (again) ev("histories reusing freed objects");
        if (want_sample()) sample("%s", log.substr(0, 200).c_str());
    }
};
void vp_init() { }
void vp_case(In &in)
{
    unsigned steps = 5 + in.below(120);
    switch (in.below(14))
    {
    case 0: StackCase<uint8_t, 1>::run(in, steps); break;
    case 1: StackCase<uint32_t, 4>::run(in, steps); break;
    case 2: StackCase<uint64_t, 7>::run(in, steps); break;
    case 3: StackCase<Odd, 20>::run(in, steps); break;
    case 4: StackCase<uint16_t, 300>::run(in, steps); break;
    case 5: PoolCase<uint8_t, 1>::run(in, steps); break;
    case 6: PoolCase<uint32_t, 2>::run(in, steps); break;
    case 7: PoolCase<Odd, 3>::run(in, steps); break;
    case 8: PoolCase<uint64_t, 5>::run(in, steps); break;
    case 9: PoolCase<uint16_t, 17>::run(in, steps); break;
    case 10: PoolCase<Odd, 64>::run(in, steps); break;
    case 11: PoolCase<uint32_t, 257>::run(in, steps); break;
    case 12: if (in.chance(1, 40)) { if (in.chance(1, 3)) StackCase<uint32_t, 66000>::run(in, std::min(steps, 12u)); else PoolCase<uint32_t, 70000>::run(in, std::min(steps, 12u)); ev("histories of more than 65536 objects"); break; } if (in.chance(1, 12)) { PoolCase<uint32_t, 5000>::run(in, std::min(steps, 30u)); break; } PoolCase<uint32_t, 6>::run(in, steps); break;
    default: PoolCase<uint64_t, 12>::run(in, steps); break;
    }
}
// all short histories of small pools: allocate, free the lowest or the highest, clear
static unsigned L() { return opt.thorough ? 10 : 7; }
uint64_t vp_exh_count(bool) { return 3ull << (2 * L()); }
void vp_exh(uint64_t index)
{
    std::vector<uint8_t> s; uint64_t n = index / 3; for (unsigned i = 0; i < L(); ++i, n >>= 2) s.push_back((uint8_t) (n & 3));
    uint8_t none[1] = { 0 }; In in(none, 0);
    switch (index % 3) { case 0: PoolCase<uint32_t, 1>::run(in, L(), &s); break; case 1: PoolCase<Odd, 2>::run(in, L(), &s); break; default: PoolCase<uint64_t, 4>::run(in, L(), &s); }
}
void vp_custom() { }
