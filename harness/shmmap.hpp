// Shared maps of several value types, capacities and bucket counts behind one interface; values are made from a stamp.
#ifndef VP_SHMMAP_HPP
#define VP_SHMMAP_HPP
#include "shmcommon.hpp"
#include <coda/shm_hash_map.hpp>

struct B3 { uint8_t b[3]; };
struct W5 { uint64_t w[5]; };
struct __attribute__((packed)) P13 { uint32_t a; uint64_t b; uint8_t c; };
struct Big { uint8_t b[3001]; };

template <class T> static inline void fill(T &v, uint64_t stamp)
{
    uint8_t *p = (uint8_t *) &v; uint64_t h = stamp * 0x9E3779B97F4A7C15ull + 77;
    memset(p, 0, sizeof(T));
    for (size_t i = 0; i < sizeof(T); ++i) { if (i < 8) p[i] = (uint8_t) (stamp >> (8 * i)); else { h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; p[i] = (uint8_t) (h >> 56); } }
}
// the stamp, or 0 with ok unset if the value is not one that was ever made
template <class T> static inline uint64_t stamp_of(const T &v, bool &ok)
{
    uint64_t s = 0; memcpy(&s, &v, sizeof(T) < 8 ? sizeof(T) : 8);
    T w; fill(w, s); ok = memcmp(&v, &w, sizeof(T)) == 0; return s;
}
static inline uint64_t cut(uint64_t s, size_t size) { return size >= 8 ? s : s & ((1ull << (8 * size)) - 1); }

typedef std::map<uint64_t, uint64_t> Model;
typedef std::pair<uint64_t, uint64_t> KV;

struct IMap
{
    virtual ~IMap() {}
    virtual void connect(const char *f) = 0;
    virtual void disconnect() = 0;
    virtual bool connected() = 0;
    virtual int semid() = 0;
    virtual int shmid() = 0;
    virtual size_t size() = 0;
    virtual size_t capacity() = 0;
    virtual bool read(uint64_t k, uint64_t &stamp, bool &whole) = 0;
    virtual bool insert(uint64_t k, uint64_t stamp) = 0;
    virtual bool insert(const std::vector<KV> &v) = 0;
    virtual bool erase(uint64_t k) = 0;
    virtual bool erase(const std::vector<uint64_t> &v) = 0;
    virtual void clear() = 0;
    virtual void lock(bool write) = 0;
    virtual void unlock(bool write) = 0;
    virtual bool uread(uint64_t k, uint64_t &stamp, bool &whole) = 0;
    virtual bool uinsert(uint64_t k, uint64_t stamp) = 0;
    virtual bool uerase(uint64_t k) = 0;
    // entries met by iterating; false if it does not end within limit steps
    virtual bool each(std::vector<KV> &out, size_t limit, bool &whole) = 0;
    virtual size_t vsize() = 0;
    virtual size_t space() = 0;
    virtual int N() = 0;
    virtual int H() = 0;
};

template <class T, int CAP, int HS> struct MapOf: IMap
{
    typedef shm::hash_map<T, CAP, HS> M;
    M m;
    void connect(const char *f) { m.connect(f); }
    void disconnect() { m.disconnect(); }
    bool connected() { return m.is_connected(); }
    int semid() { return m.semid(); }
    int shmid() { return m.shmid(); }
    size_t size() { return m.size(); }
    size_t capacity() { return m.capacity(); }
    bool got(bool r, const T &v, uint64_t &stamp, bool &whole) { whole = true; if (r) stamp = stamp_of(v, whole); return r; }
    bool read(uint64_t k, uint64_t &stamp, bool &whole) { T v; memset((void *) &v, 0x5A, sizeof v); return got(m.read(k, v), v, stamp, whole); }
    bool insert(uint64_t k, uint64_t stamp) { T v; fill(v, stamp); return m.insert(k, v); }
    bool insert(const std::vector<KV> &v)
    {
        typename M::pair *p = (typename M::pair *) malloc(sizeof(typename M::pair) * (v.size() ? v.size() : 1));
        for (size_t i = 0; i < v.size(); ++i) { memset((void *) &p[i], 0, sizeof p[i]); p[i].key = v[i].first; fill(p[i].value, v[i].second); }
        bool r; try { r = m.insert(p, v.size()); } catch (...) { free(p); throw; }
        free(p); return r;
    }
    bool erase(uint64_t k) { return m.erase(k); }
    bool erase(const std::vector<uint64_t> &v) { std::vector<uint64_t> k(v); k.shrink_to_fit(); return m.erase(k.data(), k.size()); }
    void clear() { m.clear(); }
    void lock(bool w) { if (w) m.lock_write_rw(); else m.lock_read_rw(); }
    void unlock(bool w) { if (w) m.unlock_write_rw(); else m.unlock_read_rw(); }
    bool uread(uint64_t k, uint64_t &stamp, bool &whole) { T v; memset((void *) &v, 0x5A, sizeof v); return got(m.unprotected_read(k, v), v, stamp, whole); }
    bool uinsert(uint64_t k, uint64_t stamp) { T v; fill(v, stamp); return m.unprotected_insert(k, v); }
    bool uerase(uint64_t k) { return m.unprotected_erase(k); }
    bool each(std::vector<KV> &out, size_t limit, bool &whole)
    {
        whole = true; size_t n = 0;
        typename M::const_iterator e = m.end(), before = e;
        for (typename M::const_iterator i = m.begin(); i != e; ++i)
        {
            if (n++ > limit || !(i != before)) return false;
            before = i;
            T v = i.value(); bool ok; uint64_t s = stamp_of(v, ok); whole &= ok;
            out.push_back(KV(i.key(), s));
        }
        return true;
    }
    size_t vsize() { return sizeof(T); }
    size_t space() { return m.required_space(); }
    int N() { return CAP; }
    int H() { return HS; }
};
#endif
