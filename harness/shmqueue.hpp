// Shared queues of fixed and variable size records.
#ifndef VP_SHMQUEUE_HPP
#define VP_SHMQUEUE_HPP
#include "shmcommon.hpp"
#include <coda/shm_queue.hpp>

// every record says which one it is and can be checked byte by byte
static inline void rec_body(uint8_t *p, size_t n, uint64_t id)
{
    uint64_t h = id * 0x9E3779B97F4A7C15ull + 3;
    for (size_t i = 0; i < n; ++i) { if (i < 8) p[i] = (uint8_t) (id >> (8 * i)); else { h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; p[i] = (uint8_t) (h >> 56); } }
}
static inline uint64_t rec_id(const uint8_t *p, size_t n, bool &whole)
{
    uint64_t id = 0; memcpy(&id, p, n < 8 ? n : 8); whole = true;
    uint64_t h = id * 0x9E3779B97F4A7C15ull + 3;
    for (size_t i = 8; i < n; ++i) { h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; if (p[i] != (uint8_t) (h >> 56)) whole = false; }
    return id;
}
// [1][id and body]: BYTES in all
template <int BYTES> struct Fixed: shm_queue::serializable
{
    uint64_t id; bool whole, refuse;
    Fixed(): id(0), whole(true), refuse(false) {}
    bool serialize(void *p) const { uint8_t *b = (uint8_t *) p; if (refuse) return false; b[0] = 1; rec_body(b + 1, BYTES - 1, id); return true; }
    bool deserialize(const void *p) { const uint8_t *b = (const uint8_t *) p; if (b[0] == 0) return false; id = rec_id(b + 1, BYTES - 1, whole); whole &= b[0] == 1; return true; }
    size_t size() const { return BYTES; }
    void set(uint64_t i, size_t) { id = i; }
    static size_t sizes(size_t) { return BYTES; }
    static uint64_t cutid(uint64_t i) { return BYTES - 1 >= 8 ? i : i & ((1ull << (8 * (BYTES - 1))) - 1); }
};
// [length, 2 bytes][id and body]
struct Var: shm_queue::serializable
{
    uint64_t id; size_t n; bool whole, refuse;
    Var(): id(0), n(0), whole(true), refuse(false) {}
    bool serialize(void *p) const { uint8_t *b = (uint8_t *) p; if (refuse) return false; b[0] = (uint8_t) (n & 255); b[1] = (uint8_t) (n >> 8); rec_body(b + 2, n, id); return true; }
    bool deserialize(const void *p) { const uint8_t *b = (const uint8_t *) p; size_t k = b[0] | (size_t) b[1] << 8; if (!k) return false; n = k; id = rec_id(b + 2, n, whole); return true; }
    size_t size() const { return 2 + n; }
    void set(uint64_t i, size_t bytes) { id = i; n = bytes < 10 ? 8 : bytes - 2; }
    static size_t sizes(size_t bytes) { return bytes < 10 ? 10 : bytes; }
    static uint64_t cutid(uint64_t i) { return i; }
};

struct Got { uint64_t id; bool whole; };
struct IQueue
{
    virtual ~IQueue() {}
    virtual void connect(const char *f, uint32_t bs, uint32_t n) = 0;
    virtual void disconnect() = 0;
    virtual bool put(uint64_t id, size_t bytes, bool refuse = false) = 0;
    virtual void flush() = 0;
    virtual bool unflush(short flg, long usec) = 0;
    virtual bool get(Got &g) = 0;
    virtual void set_register(uint8_t o, uint32_t v) = 0;
    virtual uint32_t get_register(uint8_t o) = 0;
    virtual int registers() = 0;
    virtual long boxes() = 0;
    virtual long pages() = 0;
    virtual int shmid() = 0;
    virtual size_t rec(size_t bytes) = 0;        // bytes a record asked to have so many takes up
    virtual uint64_t cutid(uint64_t id) = 0;
};
template <class T, class Q = shm_queue::queue<T> > struct QueueOf: IQueue
{
    Q q;
    void connect(const char *f, uint32_t bs, uint32_t n) { q.connect(f, bs, n); }
    void disconnect() { q.disconnect(); }
    bool put(uint64_t id, size_t bytes, bool refuse) { T t; t.set(id, bytes); t.refuse = refuse; return q.put(t); }
    void flush() { q.flush(); }
    bool unflush(short f, long u) { return q.unflush(f, u); }
    bool get(Got &g) { T t; bool r = q.get(t); g.id = t.id; g.whole = t.whole; return r; }
    void set_register(uint8_t o, uint32_t v) { q.set_register(o, v); }
    uint32_t get_register(uint8_t o) { return q.get_register(o); }
    int registers() { return q.registers_number(); }
    long boxes() { return q.boxes_in_queue(); }
    long pages() { return q.pages_used(); }
    int shmid() { return q.shmid(); }
    size_t rec(size_t b) { return T::sizes(b); }
    uint64_t cutid(uint64_t i) { return T::cutid(i); }
};
template <class T> static IQueue *make_role(int role)
{
    if (role == 1) return new QueueOf<T, shm_queue::reader<T> >;
    if (role == 2) return new QueueOf<T, shm_queue::writer<T> >;
    return new QueueOf<T>;
}
enum { QTYPES = 5 };
static inline IQueue *make_queue(unsigned t, int role = 0)
{
    switch (t)
    {
    case 0: return make_role<Fixed<9> >(role);
    case 1: return make_role<Fixed<3> >(role);
    case 2: return make_role<Fixed<48> >(role);
    case 3: return make_role<Fixed<100> >(role);
    default: return make_role<Var>(role);
    }
}
#endif
