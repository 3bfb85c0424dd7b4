// Shared runtime of all harnesses: case decoding, verdict reporting, coverage accounting.
// Exit codes: 0 ok, 77 violation recorded, 78 a case used too much CPU, 79 harness error.
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>

namespace vp {

struct Opt
{
    std::string phase;        // exh | rand | fuzz | replay | custom phases
    std::string out;          // prefix of the output files of this worker
    std::string replay;       // file with the bytes (or index) of a case
    std::string dir;          // scratch directory of this worker
    uint64_t seed = 1;
    uint64_t cases = 1000;
    uint64_t shard = 0, shards = 1;
    bool thorough = false;
    bool is_index = false;
    int leaks = 1;
    int cpu_limit = 20;
    std::map<std::string, std::string> x;   // extra key=value
    long num(const char *k, long d) const
    {
        auto i = x.find(k);
        return i == x.end() ? d : atol(i->second.c_str());
    }
    std::string str(const char *k, const char *d) const
    {
        auto i = x.find(k);
        return i == x.end() ? std::string(d) : i->second;
    }
};
extern Opt opt;

// ---- splitmix/xorshift generator --------------------------------------------------------
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline uint64_t hash(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    const uint8_t *b = (const uint8_t *) p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    return mix(h, n);
}
inline uint64_t hash(const std::string &s, uint64_t h = 0xcbf29ce484222325ull) { return hash(s.data(), s.size(), h); }

// ---- shared page with the case being run, so that a crash can be replayed ----------------
struct Current
{
    uint32_t kind;            // 0 none, 1 bytes, 2 index
    uint32_t len;
    uint64_t index;
    uint64_t cases;
    uint8_t data[1 << 20];
};
extern Current *cur;

// ---- a case is a sequence of choices -----------------------------------------------------
class In
{
public:
    // from recorded bytes: zero once they run out
    In(const uint8_t *d, size_t n): p_(d), n_(n), i_(0), rng_(0), rec_(0) { }
    // from a generator, recording what is drawn
    In(Rng *r, Current *c): p_(0), n_(0), i_(0), rng_(r), rec_(c) { }

    uint8_t u8()
    {
        if (!rng_) return i_ < n_ ? p_[i_++] : 0;
        uint8_t b = (uint8_t) (rng_->next() >> 24);
        if (rec_->len < sizeof(rec_->data)) rec_->data[rec_->len++] = b;
        return b;
    }
    bool more() const { return rng_ || i_ < n_; }
    uint16_t u16() { uint16_t a = u8(); return (uint16_t) (a | (u8() << 8)); }
    uint32_t u32() { uint32_t a = u16(); return a | ((uint32_t) u16() << 16); }
    uint64_t u64() { uint64_t a = u32(); return a | ((uint64_t) u32() << 32); }
    // uniform enough number in [0, n)
    uint32_t below(uint32_t n)
    {
        if (n <= 1) return 0;
        if (n <= 256) return u8() % n;
        if (n <= 65536) return u16() % n;
        return u32() % n;
    }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <size_t N> const char *pick(const char *const (&a)[N]) { return a[below(N)]; }

    // a length with a heavy head, boundary values and a long tail up to max
    size_t len(size_t max)
    {
        size_t r;
        switch (below(8))
        {
        case 0: r = below(4); break;
        case 1: case 2: case 3: r = below(20); break;
        case 4: case 5: r = below(80); break;
        case 6: { size_t k = (size_t) 1 << below(17); r = k - 2 + below(5); if ((ssize_t) r < 0) r = 0; break; }
        default: r = below((uint32_t) (max > 0xfffffff0u ? 0xfffffff0u : max + 1)); break;
        }
        return r > max ? max : r;
    }
    // n bytes drawn from an alphabet (0: all bytes); long ones are expanded from a seed
    std::string bytes(size_t n, const char *alpha = 0, size_t na = 0)
    {
        std::string s(n, '\0');
        if (alpha && !na) na = strlen(alpha);
        if (n <= 64)
        {
            for (size_t i = 0; i < n; ++i)
            {
                uint8_t b = u8();
                s[i] = alpha ? alpha[b % na] : (char) b;
            }
        }
        else
        {
            Rng r(u32());
            for (size_t i = 0; i < n; ++i)
            {
                uint8_t b = (uint8_t) (r.next() >> 20);
                s[i] = alpha ? alpha[b % na] : (char) b;
            }
        }
        return s;
    }
    std::string bytes(size_t n, const std::string &alpha) { return bytes(n, alpha.data(), alpha.size()); }
private:
    const uint8_t *p_; size_t n_, i_; Rng *rng_; Current *rec_;
};

// ---- verdicts ----------------------------------------------------------------------------
void violation(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void finding(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define CHECK(cond, key, ...) do { if (!(cond)) vp::violation(key, __VA_ARGS__); } while (0)
#define HCHECK(cond, ...) do { if (!(cond)) vp::harness_error(__VA_ARGS__); } while (0)

// ---- coverage ----------------------------------------------------------------------------
void ev(const char *name, uint64_t n = 1);     // count an observed event (name: string literal)
void sig(uint64_t h);                          // add to the signature of the current case
void mark();                                   // the current case is non-trivial
void distinct(uint64_t h);                     // count a distinct non-trivial thing directly
void evaluated(uint64_t n = 1);                // count evaluations directly (custom phases)
bool want_sample();
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void save_stats();

std::string show(const void *p, size_t n, size_t max = 120);
inline std::string show(const std::string &s, size_t max = 120) { return show(s.data(), s.size(), max); }
#define S(x) (vp::show(x).c_str())

// exact-size heap copy: any access outside [p, p+n) hits a red zone
class Exact
{
public:
    explicit Exact(const std::string &s) { init(s.size()); memcpy(p, s.data(), s.size()); }
    explicit Exact(size_t n, int fill = 0xA5) { init(n); memset(p, fill, n); }
    ~Exact() { free(base_); }
    char *p; size_t n;
    unsigned char *u() { return (unsigned char *) p; }
    std::string str() const { return std::string(p, n); }
private:
    Exact(const Exact &); Exact &operator=(const Exact &);
    void init(size_t k)
    {
        n = k;
        base_ = (char *) malloc(k ? k : 8);
        p = k ? base_ : base_ + 8;
    }
    char *base_;
};
// NUL-terminated exact heap copy
class ExactZ
{
public:
    explicit ExactZ(const std::string &s): n(s.size())
    { p = (char *) malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0; }
    ~ExactZ() { free(p); }
    char *p; size_t n;
private:
    ExactZ(const ExactZ &); ExactZ &operator=(const ExactZ &);
};

double now();
int open_fds();                                 // number of open descriptors
std::string read_file(const std::string &path);
void write_file(const std::string &path, const std::string &s);
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = 0; int n = vasprintf(&p, f, ap); va_end(ap);
    std::string r(p ? p : "", n < 0 ? 0 : n); free(p); return r;
}

} // namespace vp

// implemented by each case-driven harness
void vp_init();
void vp_case(vp::In &in);
uint64_t vp_exh_count(bool thorough);
void vp_exh(uint64_t index);
// implemented by custom harnesses
void vp_custom();

#endif
