// C33 logarithmic buckets: every bucket of arrays of several sizes and element types.
#include "common.hpp"
#include <coda/log_array.hpp>
#include <new>
using namespace vp;
using std::string;

// T: element type; v(n): a value that differs for different n
template <typename T> struct Val { static T v(unsigned n) { return (T) (n % 120 + 1); } static bool zero(const T &t) { return t == 0; } static const bool numeric = true; };
template <> struct Val<string> { static string v(unsigned n) { return fmt("value number %u", n); } static bool zero(const string &t) { return t.empty(); } static const bool numeric = false; };
template <> struct Val<bool> { static bool v(unsigned n) { return n & 1; } static bool zero(bool b) { return !b; } static const bool numeric = true; };

template <typename T, unsigned N> struct Guarded
{
    typedef coda::log_array<T, N> A;
    // an exact allocation, filled with a pattern before construction: reads of unset elements and accesses outside show
    char *mem; A *a;
    Guarded() { mem = (char *) malloc(sizeof(A)); memset(mem, 0x5B, sizeof(A)); a = new (mem) A; }
    ~Guarded() { a->~A(); free(mem); }
};

template <typename T, unsigned N> static void check(const char *name, uint64_t value, uint64_t seed)
{
    typedef Guarded<T, N> G;
    typedef Val<T> V;
    G g, h;
    for (unsigned i = 0; i < N; ++i)
        CHECK(!memcmp(&i, &i, 1) && V::zero(g.a->get_at(i)), "initial", "element %u of a new %s array of %u is not zero", i, name, N);
    unsigned j = 0;
    for (uint64_t v = value; v >>= 1; ) ++j;
    if (j >= N) { j = N - 1; ev("values beyond the last bucket"); }
    T *p = &g.a->get_by_value((size_t) value);
    CHECK(p == &g.a->get_at(j), "bucket", "value %llu selects element %td of %u (%s), expected %u", (unsigned long long) value, p - &g.a->get_at(0), N, name, j);
    *p = V::v(3);
    for (unsigned i = 0; i < N; ++i) CHECK(i == j ? g.a->get_at(i) == V::v(3) : V::zero(g.a->get_at(i)), "store", "storing by value %llu in %s array of %u changed element %u", (unsigned long long) value, name, N, i);
    const typename G::A &c = *g.a;
    CHECK(&c.get_at(j) == p, "const-access", "constant access differs");
    // swap exchanges everything
    for (unsigned i = 0; i < N; ++i) { g.a->get_at(i) = V::v((unsigned) seed + i); h.a->get_at(i) = V::v((unsigned) seed + i + 61); }
    std::vector<T> x, y;
    for (unsigned i = 0; i < N; ++i) { x.push_back(g.a->get_at(i)); y.push_back(h.a->get_at(i)); }
    g.a->swap(*h.a);
    for (unsigned i = 0; i < N; ++i)
        CHECK(g.a->get_at(i) == y[i] && h.a->get_at(i) == x[i], "swap", "swapping %s arrays of %u leaves element %u", name, N, i);
    g.a->swap(*g.a);
    for (unsigned i = 0; i < N; ++i) CHECK(g.a->get_at(i) == y[i], "swap-self", "swapping a %s array of %u with itself changes element %u", name, N, i);
    // accumulate as users do
    ev("lookups by value"); ev("swaps");
    evaluated(1);
}
template <typename T> static void sizes(const char *n, unsigned k, uint64_t v, uint64_t s)
{
    switch (k % 9)
    {
    case 0: check<T, 1>(n, v, s); break;
    case 1: check<T, 2>(n, v, s); break;
    case 2: check<T, 3>(n, v, s); break;
    case 3: check<T, 8>(n, v, s); break;
    case 4: check<T, 16>(n, v, s); break;
    case 5: check<T, 32>(n, v, s); break;
    case 6: check<T, 63>(n, v, s); break;
    case 7: check<T, 64>(n, v, s); break;
    default: check<T, 70>(n, v, s); break;
    }
    sig(k); sig(v); sig(hash(n, strlen(n))); mark();
}
static const unsigned NT = 16;
static void types(unsigned t, unsigned k, uint64_t v, uint64_t s)
{
    if (!v) v = 1;
    switch (t % NT)
    {
    case 0: sizes<char>("char", k, v, s); break;
    case 1: sizes<unsigned char>("unsigned char", k, v, s); break;
    case 2: sizes<short>("short", k, v, s); break;
    case 3: sizes<unsigned short>("unsigned short", k, v, s); break;
    case 4: sizes<int>("int", k, v, s); break;
    case 5: sizes<unsigned>("unsigned", k, v, s); break;
    case 6: sizes<long>("long", k, v, s); break;
    case 7: sizes<unsigned long>("unsigned long", k, v, s); break;
    case 8: sizes<float>("float", k, v, s); break;
    case 9: sizes<double>("double", k, v, s); break;
    case 10: sizes<long long>("long long", k, v, s); break;
    case 11: sizes<unsigned long long>("unsigned long long", k, v, s); break;
    case 12: sizes<signed char>("signed char", k, v, s); break;
    case 13: sizes<long double>("long double", k, v, s); break;
    case 14: sizes<string>("string", k, v, s); break;
    default: sizes<uint64_t>("uint64_t", k, v, s); break;
    }
}
void vp_case(In &in)
{
    unsigned t = in.u8(), k = in.u8();
    uint64_t v = in.u64() >> (in.u8() & 63);
    types(t, k, v, in.u16());
}
// every bucket boundary of every size and type
uint64_t vp_exh_count(bool) { return NT * 9 * 64 * 3; }
void vp_exh(uint64_t i)
{
    unsigned t = i % NT; i /= NT; unsigned k = i % 9; i /= 9; unsigned b = i % 64; i /= 64;
    types(t, k, ((uint64_t) 1 << b) + (i == 0 ? 0 : i == 1 ? (uint64_t) -1 : ((uint64_t) 1 << b) / 3), i);
}
void vp_init() { }
