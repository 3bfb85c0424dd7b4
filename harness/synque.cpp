// C23 in-process queue: threads adding, taking singly and in batches; recorded histories checked for exactly-once, order,
// justified failures and lost wake-ups, with pauses injected around every lock operation.
#include "common.hpp"
#include <coda/synque.hpp>
#include <thread>
#include <atomic>
#include <memory>
#include <stdexcept>
#include <climits>
using namespace vp;
using std::string;

static thread_local Rng *pause_rng = 0;
static std::atomic<int> waiting(0);             // threads between entering and leaving a condition wait
static std::atomic<uint64_t> wakeups(0);        // wake-ups the queue asked for
static thread_local bool spurious = false;      // the C library woke this thread up by itself, as POSIX lets it
static int pace = 0;
// every value but zero asks to wait
static int waitval(Rng &r, bool wait) { static const int v[] = { 1, 1, 1, 2, -1, 256, 65536, INT_MIN }; return wait ? v[r.below(8)] : 0; }
static void pause_here()
{
    if (!pause_rng || !pace) return;
    uint64_t r = pause_rng->below(pace == 1 ? 8 : 64);
    if (r == 0) sched_yield();
    else if (r == 1) { for (volatile int i = 0; i < 200; ++i) ; }
    else if (r == 2 && pause_rng->chance(1, 4)) usleep((useconds_t) pause_rng->below(80));
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { pause_here(); int r = __real_pthread_mutex_lock(m); pause_here(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { pause_here(); int r = __real_pthread_mutex_unlock(m); pause_here(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    uint64_t w = wakeups.load(std::memory_order_relaxed);
    waiting.fetch_add(1, std::memory_order_relaxed); int r = __real_pthread_cond_wait(c, m); waiting.fetch_sub(1, std::memory_order_relaxed);
    if (!r && w == wakeups.load(std::memory_order_relaxed)) spurious = true;
    pause_here(); return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { pause_here(); wakeups.fetch_add(1, std::memory_order_relaxed); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { pause_here(); wakeups.fetch_add(1, std::memory_order_relaxed); return __real_pthread_cond_broadcast(c); }
}

static uint64_t ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec; }

// ---- element types -----------------------------------------------------------------------
struct Big { uint64_t id, copy[14]; };
template <typename T> struct El;
template <> struct El<uint64_t> { static uint64_t make(uint64_t i) { return i; } static bool id(const uint64_t &e, uint64_t &i) { i = e; return true; } };
template <> struct El<string>
{
    static string make(uint64_t i) { return fmt("element number %llu of the queue", (unsigned long long) i); }
    static bool id(const string &e, uint64_t &i) { unsigned long long x = 0; if (sscanf(e.c_str(), "element number %llu of", &x) != 1) return false; i = x; return e == make(i); }
};
template <> struct El<Big>
{
    static Big make(uint64_t i) { Big b; b.id = i; for (auto &c : b.copy) c = i * 3; return b; }
    static bool id(const Big &b, uint64_t &i) { i = b.id; for (auto &c : b.copy) if (c != i * 3) return false; return true; }
};
template <> struct El<std::shared_ptr<uint64_t>>
{
    typedef std::shared_ptr<uint64_t> P;
    static P make(uint64_t i) { return P(new uint64_t(i)); }
    static bool id(const P &p, uint64_t &i) { if (!p) return false; i = *p; return true; }
};

struct Op { char what; uint64_t s, e; std::vector<uint64_t> v; long n; bool wait, alone; };   // a add, g got, f failed get, w wake-up, z size

struct History
{
    std::vector<Op> ops;
    string trace() const { return fmt("%zu operations", ops.size()); }
};

static void judge(const std::vector<std::vector<Op>> &logs, size_t left, const char *kind)
{
    struct E { uint64_t as, ae, gs, ge; int added, taken; };
    std::map<uint64_t, E> m;
    std::vector<const Op *> fails, wakes, sizes, all;
    for (auto &l : logs) for (auto &o : l)
    {
        all.push_back(&o);
        if (o.what == 'a') { E &x = m[o.v[0]]; x.as = o.s; x.ae = o.e; x.gs = x.ge = ~0ull; x.taken = 0; ++x.added; }
        else if (o.what == 'f') fails.push_back(&o);
        else if (o.what == 'w') wakes.push_back(&o);
        else if (o.what == 'z') sizes.push_back(&o);
    }
    size_t taken = 0, batches = 0;
    for (auto *o : all)
    {
        if (o->what != 'g') continue;
        if (o->v.size() > 1) ++batches;
        CHECK(!o->v.empty(), "empty-success", "%s: a get succeeded without giving an element", kind);
        if (o->n > 0) CHECK(o->v.size() <= (size_t) o->n, "too-many", "%s: a batch of at most %ld took %zu", kind, o->n, o->v.size());
        for (auto i : o->v)
        {
            auto f = m.find(i);
            CHECK(f != m.end(), "invented", "%s: element %llu was taken but never added", kind, (unsigned long long) i);
            CHECK(!f->second.taken++, "twice", "%s: element %llu was taken twice", kind, (unsigned long long) i);
            CHECK(f->second.as <= o->e, "before-added", "%s: element %llu was taken before it was added", kind, (unsigned long long) i);
            f->second.gs = o->s; f->second.ge = o->e; ++taken;
        }
        // inside the batch: the order of adding
        uint64_t lo = ~0ull;
        for (size_t k = o->v.size(); k--; )
        {
            E &x = m[o->v[k]];
            CHECK(lo >= x.as, "batch-order", "%s: a batch of %zu gives element %llu before one that was added earlier", kind, o->v.size(), (unsigned long long) o->v[k]);
            lo = std::min(lo, x.ae);
        }
    }
    CHECK(taken + left == m.size(), "lost", "%s: %zu added, %zu taken, %zu left", kind, m.size(), taken, left);
    // order between operations
    std::vector<const E *> byend, bystart;
    for (auto &x : m) { byend.push_back(&x.second); bystart.push_back(&x.second); }
    std::sort(byend.begin(), byend.end(), [](const E *a, const E *b) { return a->ae < b->ae; });
    std::sort(bystart.begin(), bystart.end(), [](const E *a, const E *b) { return a->as < b->as; });
    std::vector<uint64_t> pre(byend.size());
    uint64_t latest = 0; size_t j = 0;
    for (size_t k = 0; k < byend.size(); ++k) pre[k] = latest = std::max(latest, byend[k]->gs);
    latest = 0;
    for (auto *b : bystart)
    {
        while (j < byend.size() && byend[j]->ae < b->as) latest = std::max(latest, byend[j++]->gs);
        CHECK(b->ge == ~0ull || latest <= b->ge, "order", "%s: an element was taken before another one that had been added before it was", kind);
    }
    auto added_before = [&](uint64_t t) { return (size_t) (std::lower_bound(byend.begin(), byend.end(), t, [](const E *a, uint64_t v) { return a->ae < v; }) - byend.begin()); };
    std::vector<std::pair<uint64_t, uint64_t>> causes;
    for (auto *w : wakes) causes.push_back(std::make_pair(w->s, w->e));
    for (auto &x : m) causes.push_back(std::make_pair(x.second.as, x.second.ae));
    std::sort(causes.begin(), causes.end());
    std::vector<uint64_t> maxend(causes.size()); latest = 0;
    for (size_t k = 0; k < causes.size(); ++k) maxend[k] = latest = std::max(latest, causes[k].second);
    for (auto *f : fails)
    {
        size_t k = added_before(f->s);
        if (k) CHECK(pre[k - 1] <= f->e, "false-empty", "%s: a %swaiting get failed while an element was there all the time", kind, f->wait ? "" : "non-");
        if (f->wait)
        {
            size_t c = (size_t) (std::lower_bound(causes.begin(), causes.end(), std::make_pair(f->e, (uint64_t) 0)) - causes.begin());
            if (!(c && maxend[c - 1] >= f->s) && f->alone) { ev("waits the C library ended by itself"); continue; }
            CHECK(c && maxend[c - 1] >= f->s, "woken-by-nothing", "%s: a waiting get failed although nothing was added or signalled meanwhile", kind);
        }
    }
    // sizes lie between what must and what may be there
    std::vector<uint64_t> as, ae, gs, ge;
    for (auto &x : m) { as.push_back(x.second.as); ae.push_back(x.second.ae); gs.push_back(x.second.gs); ge.push_back(x.second.ge); }
    std::sort(as.begin(), as.end()); std::sort(ae.begin(), ae.end()); std::sort(gs.begin(), gs.end()); std::sort(ge.begin(), ge.end());
    auto upto = [](const std::vector<uint64_t> &v, uint64_t t) { return (long) (std::upper_bound(v.begin(), v.end(), t) - v.begin()); };
    for (auto *z : sizes)
    {
        long lo = upto(ae, z->s) - upto(gs, z->e), hi = upto(as, z->e) - upto(ge, z->s);
        CHECK(z->n >= lo && z->n <= hi, "size", "%s: the size is reported as %ld, it lies between %ld and %ld", kind, z->n, lo, hi);
    }
    std::sort(all.begin(), all.end(), [](const Op *a, const Op *b) { return a->s < b->s; });
    uint64_t h = 0; size_t overlaps = 0; uint64_t last = 0;
    for (auto *o : all) { h = mix(h, (uint64_t) o->what * 131 + o->v.size()); if (o->s < last) ++overlaps; last = std::max(last, o->e); }
    distinct(h);
    evaluated(1);
    ev("elements added", m.size()); ev("elements taken", taken); ev("batches of several elements", batches); ev("failed gets", fails.size());
    ev("wake-up signals", wakes.size()); ev("sizes checked", sizes.size()); ev("overlapping operations", overlaps); ev("histories");
}

template <typename T> static void stress(Rng &r, const char *kind)
{
    std::unique_ptr<coda::synque<T>> q(new coda::synque<T>);
    int adders = 1 + (int) r.below(4), takers = 1 + (int) r.below(4);
    unsigned per = 1 + (unsigned) r.below(r.chance(1, 3) ? 20 : 300);
    bool batch = r.chance(1, 2), poll = r.chance(1, 4), waker = r.chance(1, 3), sizer = r.chance(1, 3), burst = r.chance(1, 2);
    pace = (int) r.below(3);
    std::vector<std::vector<Op>> logs((size_t) (adders + takers + 2));
    std::vector<uint64_t> seeds; for (size_t i = 0; i < logs.size(); ++i) seeds.push_back(r.next());
    std::atomic<bool> stop(false); std::atomic<long> taken(0), finished(0), in_wait(0), bad(0); std::atomic<uint64_t> progress(0);
    std::vector<std::thread> th;
    for (int t = 0; t < takers; ++t) th.emplace_back([&, t]
    {
        Rng mine(seeds[(size_t) t]); pause_rng = &mine;
        std::vector<Op> &log = logs[(size_t) t];
        while (!stop.load(std::memory_order_relaxed))
        {
            Op o; o.alone = spurious = false; o.wait = !(poll && mine.chance(1, 2)); o.n = 0; o.v.clear();
            int rc; bool ok = true;
            if (batch && mine.chance(1, 2))
            {
                std::deque<T> out; size_t before = mine.below(3);
                for (size_t k = 0; k < before; ++k) out.push_back(El<T>::make(~0ull - k));
                o.n = mine.chance(1, 5) ? (long) 0 - (long) mine.below(2) : 1 + (long) mine.below(6);
                if (o.wait) in_wait.fetch_add(1, std::memory_order_relaxed);
                o.s = ns(); rc = q->get(out, (ssize_t) o.n, waitval(mine, o.wait)); o.e = ns();
                if (o.wait) in_wait.fetch_sub(1, std::memory_order_relaxed);
                // the given deque keeps what it had and gets the new ones behind it
                if (out.size() < before) ok = false;
                for (size_t k = 0; k < before && ok; ++k) { uint64_t i; ok = El<T>::id(out[k], i) && i == ~0ull - k; }
                for (size_t k = before; k < out.size() && ok; ++k) { uint64_t i; if ((ok = El<T>::id(out[k], i))) o.v.push_back(i); }
                if (rc && out.size() != before) ok = false;
            }
            else
            {
                T e = El<T>::make(77); uint64_t i;
                if (o.wait) in_wait.fetch_add(1, std::memory_order_relaxed);
                o.s = ns(); rc = q->get(e, waitval(mine, o.wait)); o.e = ns();
                if (o.wait) in_wait.fetch_sub(1, std::memory_order_relaxed);
                ok = El<T>::id(e, i);
                if (!rc) o.v.push_back(i); else ok = ok && i == 77;
                o.n = 1;
            }
            if (!ok) bad.fetch_add(1);
            o.alone = spurious;
            o.what = rc ? 'f' : 'g';
            taken.fetch_add((long) o.v.size(), std::memory_order_relaxed);
            progress.fetch_add(1, std::memory_order_relaxed);
            if (o.what == 'g' || o.wait || log.size() < 3000) log.push_back(o);
            if (o.what == 'f' && !o.wait) sched_yield();
        }
        pause_rng = 0;
    });
    for (int t = 0; t < adders; ++t) th.emplace_back([&, t]
    {
        Rng mine(seeds[(size_t) (takers + t)]); pause_rng = &mine;
        std::vector<Op> &log = logs[(size_t) (takers + t)];
        for (unsigned k = 0; k < per; ++k)
        {
            Op o; o.what = 'a'; o.v.push_back((uint64_t) t * 1000000 + k + 1000); o.n = 0; o.wait = false;
            T e = El<T>::make(o.v[0]);
            o.s = ns(); q->add(e); o.e = ns();
            log.push_back(o);
            if (!burst && mine.chance(1, 4)) usleep((useconds_t) mine.below(60));
        }
        finished.fetch_add(1); pause_rng = 0;
    });
    std::thread extra([&]
    {
        Rng mine(seeds.back()); pause_rng = &mine;
        while ((waker || sizer) && finished.load() < adders)
        {
            Op o; o.n = 0; o.wait = false;
            if (waker && mine.chance(1, 2)) { o.what = 'w'; o.s = ns(); q->signal(); o.e = ns(); logs[logs.size() - 1].push_back(o); }
            if (sizer) { o.what = 'z'; o.s = ns(); o.n = (long) q->size(); o.e = ns(); logs[logs.size() - 1].push_back(o); }
            usleep((useconds_t) mine.below(100));
        }
        pause_rng = 0;
    });
    for (size_t i = (size_t) takers; i < th.size(); ++i) th[i].join();
    extra.join();
    // everything must be taken: an element may not stay while a getter remains blocked
    long total = (long) per * adders; uint64_t seen = progress.load(); double since = now();
    while (taken.load() < total)
    {
        usleep(500);
        uint64_t p = progress.load();
        if (p != seen) { seen = p; since = now(); }
        if (now() - since > 8)
        {
            size_t z = q->size();
            CHECK(!(z > 0 && in_wait.load() > 0), "stuck", "%s: %zu elements stay in the queue while %ld getters are blocked (%d adders, %d getters, %ld taken)", kind, z, in_wait.load(), adders, takers, taken.load());
            CHECK(z > 0, "lost", "%s: %ld of %ld elements were taken and the queue is empty", kind, taken.load(), total);
            since = now();
        }
    }
    // wake the getters up until all are gone
    stop.store(true);
    std::vector<Op> &wl = logs[logs.size() - 2 + 0];
    (void) wl;
    double a = now(); std::atomic<bool> gone(false);
    std::thread w([&] { while (!gone.load()) { Op o; o.what = 'w'; o.n = 0; o.wait = false; o.s = ns(); q->signal(); o.e = ns(); logs[logs.size() - 1].push_back(o); usleep(200); if (now() - a > 30) break; } });
    for (int t = 0; t < takers; ++t) th[(size_t) t].join();
    gone.store(true); w.join();
    CHECK(!bad.load(), "damaged", "%s: %ld elements arrived damaged, or a get touched what it should not", kind, bad.load());
    size_t left = q->size();
    CHECK(left == 0, "size", "%s: the size of the emptied queue is %zu", kind, left);
    judge(logs, left, kind);
    if (want_sample()) sample("%s elements, %d adders x %u, %d getters, batches %d, polling %d, wake-ups %d", kind, adders, per, takers, batch, poll, waker);
}

// blocked getters: nobody returns before something arrives; each event lets somebody go on
template <typename T> static void blocked(Rng &r, const char *kind)
{
    coda::synque<T> q; pace = 0;
    int n = 1 + (int) r.below(4);
    struct R { std::atomic<int> done; int rc; uint64_t id; std::deque<T> out; R(): done(0), rc(9), id(0) { } };
    std::vector<std::unique_ptr<R>> res; std::vector<std::thread> th;
    { T e = El<T>::make(5); uint64_t i; double a = now(); CHECK(q.get(e, 0) == -1 && El<T>::id(e, i) && i == 5, "non-waiting", "a non-waiting get on an empty queue succeeded or changed the element"); CHECK(now() - a < 3, "non-waiting", "a non-waiting get took %.1f s", now() - a);
      std::deque<T> o; CHECK(q.get(o, 3, 0) == -1 && o.empty(), "non-waiting", "a non-waiting batch get on an empty queue succeeded"); }
    int w0 = waiting.load();
    std::vector<int> isbatch, how;
    for (int i = 0; i < n; ++i) { res.emplace_back(new R); isbatch.push_back((int) r.below(2)); how.push_back(waitval(r, true)); }
    for (int i = 0; i < n; ++i) th.emplace_back([&, i]
    {
        R &x = *res[(size_t) i]; T e = El<T>::make(1);
        if (isbatch[(size_t) i]) x.rc = q.get(x.out, 1, how[(size_t) i]); else { x.rc = q.get(e, how[(size_t) i]); if (!x.rc) x.out.push_back(e); }
        x.done.store(1);
    });
    for (int k = 0; k < 400 && waiting.load() < w0 + n; ++k) usleep(500);
    q.size();                                    // whoever holds the lock is in the wait now
    usleep(15000);
    auto done = [&] { int d = 0; for (auto &x : res) d += x->done.load(); return d; };
    CHECK(done() == 0, "not-blocking", "%s: %d of %d waiting gets returned although nothing arrived", kind, done(), n);
    // events: elements and signals, sometimes all at once
    int adds = 0, signals = 0, expect = 0; bool together = r.chance(2, 3);
    for (int i = 0; i < n; ++i)
    {
        if (r.chance(1, 3)) { q.signal(); ++signals; } else { q.add(El<T>::make(1000 + (uint64_t) adds)); ++adds; }
        ++expect;
        if (!together)
        {
            double a = now(); while (done() < expect && now() - a < 8) usleep(300);
            CHECK(done() >= expect, "not-woken", "%s: after %d additions and %d signals only %d of %d blocked getters went on", kind, adds, signals, done(), n);
        }
    }
    double a = now();
    while (now() - a < 8) { if (q.size() == 0 && (done() >= (together ? std::min(n, adds) : n))) break; usleep(300); }
    CHECK(q.size() == 0 || done() == n, "stuck", "%s: %zu elements stay in the queue while %d getters are blocked", kind, q.size(), n - done());
    CHECK(done() >= std::min(n, adds), "stuck", "%s: %d elements were added to %d blocked getters, %d went on", kind, adds, n, done());
    while (done() < n) { q.signal(); usleep(300); CHECK(now() - a < 30, "not-woken", "%s: signals do not wake the remaining getters", kind); }
    for (auto &t : th) t.join();
    std::set<uint64_t> got; 
    for (auto &x : res)
    {
        CHECK(x->rc == (x->out.empty() ? -1 : 0), "return", "%s: a get gave %zu elements and returned %d", kind, x->out.size(), x->rc);
        for (auto &e : x->out) { uint64_t i = 0; CHECK(El<T>::id(e, i) && i >= 1000 && i < 1000 + (uint64_t) adds && got.insert(i).second, "twice", "%s: element %llu is damaged or taken twice", kind, (unsigned long long) i); }
    }
    // what is left comes out in order
    uint64_t expect_id = 1000;
    T e = El<T>::make(0); size_t left = q.size();
    CHECK(left + got.size() == (size_t) adds, "lost", "%s: %d added, %zu taken, %zu left", kind, adds, got.size(), left);
    while (!q.get(e, 0)) { uint64_t i; CHECK(El<T>::id(e, i) && i >= expect_id && !got.count(i), "order", "%s: wrong element", kind); expect_id = i + 1; --left; }
    CHECK(left == 0, "lost", "%s: elements are lost", kind);
    evaluated(1); ev("getters blocked and released", (uint64_t) n); distinct(mix(mix((uint64_t) n, (uint64_t) adds * 8 + (uint64_t) signals), mix(together, hash(kind, strlen(kind)))));
}

// one thread: the queue is a list
template <typename T> static void sequential(Rng &r, const char *kind)
{
    coda::synque<T> q; std::deque<uint64_t> m; uint64_t next = 1000; pace = 0;
    for (unsigned k = 1 + (unsigned) r.below(200); k--; )
    {
        switch (r.below(6))
        {
        case 0: case 1: case 2: m.push_back(next); q.add(El<T>::make(next++)); break;
        case 3:
        {
            T e = El<T>::make(3); uint64_t i = 0; bool wait = r.chance(1, 2) && !m.empty();
            int rc = q.get(e, waitval(r, wait));
            CHECK(rc == (m.empty() ? -1 : 0), "return", "%s: get with %zu elements returned %d", kind, m.size(), rc);
            CHECK(El<T>::id(e, i) && i == (m.empty() ? 3 : m.front()), "order", "%s: got element %llu", kind, (unsigned long long) i);
            if (!m.empty()) m.pop_front();
            break;
        }
        case 4:
        {
            std::deque<T> out; long n = r.chance(1, 4) ? -(long) r.below(3) : 1 + (long) r.below(8); if (r.chance(1, 20)) n = 1l << (20 + r.below(40)); bool wait = r.chance(1, 2) && !m.empty();
            int rc = q.get(out, (ssize_t) n, waitval(r, wait));
            size_t w = n > 0 ? std::min<size_t>((size_t) n, m.size()) : m.size();
            CHECK(rc == (m.empty() ? -1 : 0) && out.size() == w, "batch", "%s: a batch of %ld with %zu elements returned %d and %zu elements", kind, n, m.size(), rc, out.size());
            for (auto &e : out) { uint64_t i = 0; CHECK(El<T>::id(e, i) && i == m.front(), "order", "%s: batch element %llu", kind, (unsigned long long) i); m.pop_front(); }
            break;
        }
        default: if (r.chance(1, 3)) q.signal(); CHECK(q.size() == m.size(), "size", "%s: size %zu, expected %zu", kind, q.size(), m.size());
        }
    }
    CHECK(q.size() == m.size(), "size", "%s: size %zu, expected %zu", kind, q.size(), m.size());
    evaluated(1); ev("sequential histories");
}

// copying an element may throw: the getter it happens to goes on with the exception, and the element is for another one
struct Fails
{
    uint64_t id;
    static std::atomic<long> left;              // copies by getters that are still to throw
    static thread_local bool getter;
    static void copied() { if (getter && left.fetch_sub(1) > 0) throw std::runtime_error("copy"); }
    explicit Fails(uint64_t i = 0): id(i) { }
    Fails(const Fails &o): id(o.id) { copied(); }
    Fails &operator=(const Fails &o) { copied(); id = o.id; return *this; }
};
std::atomic<long> Fails::left(0); thread_local bool Fails::getter = false;

static void throwing(Rng &r)
{
    coda::synque<Fails> q; pace = 0;
    int n = 2 + (int) r.below(3), fails = 1 + (int) r.below((uint32_t) n - 1), adds = 1 + (int) r.below((uint32_t) (n - fails));
    struct R { std::atomic<int> done; bool threw; std::vector<uint64_t> got; R(): done(0), threw(false) { } };
    std::vector<std::unique_ptr<R>> res; std::vector<std::thread> th; std::vector<long> max;
    for (int i = 0; i < n; ++i) { res.emplace_back(new R); max.push_back(r.chance(1, 2) ? -1 : (long) r.below(4)); }
    Fails::left.store(fails);
    int w0 = waiting.load();
    for (int i = 0; i < n; ++i) th.emplace_back([&, i]
    {
        R &x = *res[(size_t) i]; std::deque<Fails> out; Fails e; int rc;
        Fails::getter = true;
        try { rc = max[(size_t) i] < 0 ? q.get(e, 1) : q.get(out, (ssize_t) max[(size_t) i], 1); if (rc == 0 && max[(size_t) i] < 0) x.got.push_back(e.id); }
        catch (const std::runtime_error &) { x.threw = true; }
        Fails::getter = false;
        for (auto &o : out) x.got.push_back(o.id);
        x.done.store(1);
    });
    for (int k = 0; k < 400 && waiting.load() < w0 + n; ++k) usleep(500);
    q.size();
    for (int i = 0; i < adds; ++i) { q.add(Fails(1000 + (uint64_t) i)); if (r.chance(1, 2)) usleep((useconds_t) r.below(300)); }
    auto done = [&] { int d = 0; for (auto &x : res) d += x->done.load(); return d; };
    double a = now();
    while (now() - a < 8 && q.size() && done() < n) usleep(300);
    size_t z = q.size(); int d = done();
    CHECK(z == 0 || d == n, "stuck", "copying an element throws: %zu elements stay in the queue while %d getters are blocked", z, n - d);
    while (done() < n) { q.signal(); usleep(300); CHECK(now() - a < 30, "not-woken", "copying an element throws: signals do not wake the remaining getters"); }
    for (auto &t : th) t.join();
    int threw = 0; std::set<uint64_t> got;
    for (auto &x : res) { threw += x->threw; for (auto i : x->got) CHECK(got.insert(i).second, "twice", "copying an element throws: element %llu is taken twice", (unsigned long long) i); }
    Fails::left.store(0); Fails e; uint64_t last = 0;
    while (!q.get(e, 0)) { CHECK(e.id > last, "order", "copying an element throws: element %llu comes after %llu", (unsigned long long) e.id, (unsigned long long) last); last = e.id; CHECK(got.insert(e.id).second, "twice", "copying an element throws: element %llu is taken twice", (unsigned long long) e.id); }
    CHECK(got.size() == (size_t) adds, "lost", "copying an element throws: %d added, %zu taken", adds, got.size());
    evaluated(1); ev("getters whose copy threw", (uint64_t) threw); if (threw && d < n) ev("handed on to another getter"); distinct(mix(mix((uint64_t) n, (uint64_t) fails * 8 + (uint64_t) adds), 77));
}

// very many elements, and limits of batches beyond 15, 16 and 32 bits
template <typename T> static void many(Rng &r, const char *kind)
{
    coda::synque<T> q; uint64_t first = 0, next = 0; pace = 0;
    static const uint64_t sizes[] = { 3000, 5000, 33000, 40000, 66000, 70000 };
    uint64_t total = sizes[r.below(6)] + r.below(2000);
    while (next < total) q.add(El<T>::make(next++));
    for (int k = 0; first < next || k < 3; ++k)
    {
        CHECK(q.size() == next - first, "size", "%s: size %zu, %llu elements are there", kind, q.size(), (unsigned long long) (next - first));
        static const long ns[] = { 255, 256, 257, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 131073, (1l << 31) + 1, (1l << 32) + 1, (1l << 32) + 5, (long) (~0ul >> 1), 0, -1 };
        if (r.chance(1, 3) || first == next)
        {
            T e = El<T>::make(3); uint64_t i = 0; int rc = q.get(e, 0);
            CHECK(rc == (first == next ? -1 : 0), "return", "%s: get with %llu elements returned %d", kind, (unsigned long long) (next - first), rc);
            if (!rc) { CHECK(El<T>::id(e, i) && i == first, "order", "%s: got element %llu, not %llu", kind, (unsigned long long) i, (unsigned long long) first); ++first; }
            continue;
        }
        long n = ns[r.below(sizeof ns / sizeof *ns)]; std::deque<T> out; int rc = q.get(out, (ssize_t) n, waitval(r, r.chance(1, 2)));
        uint64_t w = n > 0 ? std::min<uint64_t>((uint64_t) n, next - first) : next - first;
        CHECK(rc == 0 && out.size() == w, "batch", "%s: a batch of %ld with %llu elements returned %d and %zu elements", kind, n, (unsigned long long) (next - first), rc, out.size());
        for (auto &e : out) { uint64_t i = 0; CHECK(El<T>::id(e, i) && i == first, "order", "%s: batch element %llu, not %llu", kind, (unsigned long long) i, (unsigned long long) first); ++first; }
    }
    evaluated(1); ev("queues of thousands of elements");
}

void vp_custom()
{
    for (uint64_t i = 0; i < opt.cases; ++i)
    {
        Rng r(opt.seed * 104729 + i * 31 + opt.shard * 1000003 + (uint64_t) opt.num("seedoff", 0));
        throwing(r);
        if (i % 10 == 3) { if (r.chance(1, 3)) many<string>(r, "string"); else many<uint64_t>(r, "number"); }
        switch (i % 4)
        {
        case 0: stress<uint64_t>(r, "number"); blocked<uint64_t>(r, "number"); sequential<uint64_t>(r, "number"); break;
        case 1: stress<string>(r, "string"); blocked<string>(r, "string"); sequential<string>(r, "string"); break;
        case 2: stress<Big>(r, "record"); blocked<Big>(r, "record"); sequential<Big>(r, "record"); break;
        default: stress<std::shared_ptr<uint64_t>>(r, "pointer"); blocked<std::shared_ptr<uint64_t>>(r, "pointer"); sequential<std::shared_ptr<uint64_t>>(r, "pointer");
        }
    }
}
void vp_init() { }
