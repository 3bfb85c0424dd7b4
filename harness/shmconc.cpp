// C17 concurrent use of a shared map by processes and threads: recorded histories are searched for a legal order.
#define VP_SYSWRAP_IMPL
#include "shmmap.hpp"
#include <thread>
#include <atomic>

// a value whose copying takes its time, so that unprotected access shows
static thread_local Rng *slow_rng = 0; static thread_local int slow_us = 0;
static inline void dawdle()
{
    if (!slow_rng || !slow_us) return;
    uint64_t r = slow_rng->below(8);
    if (r < 2) sched_yield();
    else if (r == 2) { struct timespec t = { 0, (long) slow_rng->below((uint64_t) slow_us) * 1000 }; nanosleep(&t, 0); }
    else if (r < 5) { for (volatile int i = 0, n = (int) slow_rng->below(300); i < n; ++i) ; }
}
struct Slow
{
    uint64_t a, w[7];
    Slow() {}
    Slow(const Slow &o) { *this = o; }
    Slow &operator=(const Slow &o)
    { a = o.a; dawdle(); for (int i = 0; i < 4; ++i) w[i] = o.w[i]; dawdle(); for (int i = 4; i < 7; ++i) w[i] = o.w[i]; return *this; }
};

static IMap *make(unsigned t)
{
    switch (t)
    {
    case 0: return new MapOf<Slow, 3, 1>;
    case 1: return new MapOf<Slow, 3, 2>;
    case 2: return new MapOf<Slow, 5, 3>;
    case 3: return new MapOf<uint64_t, 2, 1>;
    case 4: return new MapOf<Big, 3, 2>;
    default: return new MapOf<W5, 4, 1>;
    }
}
enum { TYPES = 6, MAXOPS = 64, MAXK = 5, MAXN = 40, MAXCL = 8 };

enum What { READ, INSERT, ERASE, BINSERT, BERASE, SIZE, CLEAR, EACH, TAKE, LOOK };
static const char *const names[] = { "read", "insert", "erase", "bulk insert", "bulk erase", "size", "clear", "iterate", "locked update", "locked reads" };
struct Op
{
    uint64_t s, e; uint8_t what, n, res, failed, client; uint8_t k[MAXN]; uint64_t v[MAXN];   // arguments and results
};
struct Shm
{
    std::atomic<int> arrived, round, stop; std::atomic<int> n; Op op[MAXOPS];
    std::atomic<int> readers, writers; std::atomic<uint64_t> interrupted, signals, lockchecks;
};
static Shm *sh;
static uint64_t keys[MAXK]; static unsigned K, CAP; static size_t VS;

static int key_index(uint64_t k) { for (unsigned i = 0; i < K; ++i) if (keys[i] == k) return (int) i; return -1; }
struct Excl
{
    bool w;
    explicit Excl(bool write): w(write)
    {
        if (w) { CHECK(sh->writers.fetch_add(1) == 0 && sh->readers.load() == 0, "lock-shared", "a writer holds the lock together with %d readers or another writer", sh->readers.load()); }
        else { sh->readers.fetch_add(1); CHECK(sh->writers.load() == 0, "lock-shared", "a reader holds the lock together with a writer"); }
        sh->lockchecks.fetch_add(1);
    }
    ~Excl() { if (w) sh->writers.fetch_sub(1); else sh->readers.fetch_sub(1); }
};
static bool look(IMap *m, Op &o)
{
    for (unsigned i = 0; i < K; ++i)
    {
        uint64_t s = 0; bool whole, r = m->uread(keys[i], s, whole);
        CHECK(whole, "torn-value", "a reader holding the lock sees a value that was never stored");
        o.k[i] = r; o.v[i] = r ? s : 0;
    }
    return true;
}
static void perform(IMap *m, Op &o)
{
    bool whole = true;
    o.failed = 0; o.res = 0;
    o.s = ns();
    try
    {
        switch (o.what)
        {
        case READ: { uint64_t s = 0; o.res = m->read(keys[o.k[0]], s, whole); o.v[0] = s; CHECK(whole, "torn-value", "a read gives a value that was never stored"); break; }
        case INSERT: o.res = m->insert(keys[o.k[0]], o.v[0]); break;
        case ERASE: o.res = m->erase(keys[o.k[0]]); break;
        case BINSERT: { std::vector<KV> v; for (int i = 0; i < o.n; ++i) v.push_back(KV(keys[o.k[i]], o.v[i])); o.res = m->insert(v); break; }
        case BERASE: { std::vector<uint64_t> v; for (int i = 0; i < o.n; ++i) v.push_back(keys[o.k[i]]); o.res = m->erase(v); break; }
        case SIZE: { size_t z = m->size(); o.res = (uint8_t) (z > 200 ? 200 : z); break; }
        case CLEAR: m->clear(); break;
        case EACH:
        {
            std::vector<KV> v; m->lock(false); bool ends;
            { Excl x(false); ends = m->each(v, CAP + 2, whole); }
            m->unlock(false);
            CHECK(ends, "iteration-endless", "iteration under the lock does not end");
            CHECK(whole, "torn-value", "iteration gives a value that was never stored");
            memset(o.k, 0, sizeof o.k); o.n = (uint8_t) v.size();
            for (KV &q : v) { int i = key_index(q.first); CHECK(i >= 0, "strange-key", "iteration shows a key never inserted"); CHECK(!o.k[i], "iteration-repeats", "iteration shows a key twice"); o.k[i] = 1; o.v[i] = q.second; }
            break;
        }
        case LOOK:
        {
            m->lock(false);
            { Excl x(false); look(m, o); dawdle(); Op p = o; look(m, p); CHECK(!memcmp(p.k, o.k, K) && !memcmp(p.v, o.v, sizeof o.v[0] * K), "changed-under-reader", "the map changes while a reader holds its lock"); }
            m->unlock(false); break;
        }
        default: // TAKE: see an entry, then replace it
        {
            m->lock(true);
            { Excl x(true); uint64_t s = 0; o.res = m->uread(keys[o.k[0]], s, whole); o.v[1] = s; CHECK(whole, "torn-value", "a writer sees a value that was never stored"); dawdle(); o.n = m->uinsert(keys[o.k[0]], o.v[0]);
              uint64_t s2 = 0; bool r2 = m->uread(keys[o.k[0]], s2, whole); CHECK(r2 == (o.n != 0) && (!r2 || s2 == o.v[0]), "changed-under-writer", "the map changes while a writer holds its lock"); }
            m->unlock(true); break;
        }
        }
    }
    catch (const std::exception &e)
    {
        // only a signal interrupting the wait for the lock is an excuse, and then nothing has happened
        CHECK(strstr(e.what(), "Interrupted") && sh->signals.load(), "unexpected-exception", "%s throws: %s", names[o.what], e.what());
        o.failed = 1; sh->interrupted.fetch_add(1);
    }
    o.e = ns();
}

// ---- search for an order --------------------------------------------------------------------------------------------------
typedef std::vector<uint64_t> St;      // per key: 0 absent, else stamp
static bool apply(const Op &o, St &s)
{
    unsigned used = 0; for (uint64_t x : s) used += x != 0;
    auto put = [&](int k, uint64_t v) { if (!s[(size_t) k] && used >= CAP) return false; if (!s[(size_t) k]) ++used; s[(size_t) k] = v; return true; };
    auto del = [&](int k) { if (!s[(size_t) k]) return false; s[(size_t) k] = 0; --used; return true; };
    switch (o.what)
    {
    case READ: return o.res == (s[o.k[0]] != 0) && (!o.res || o.v[0] == s[o.k[0]]);
    case INSERT: return put(o.k[0], o.v[0]) == (o.res != 0);
    case ERASE: return del(o.k[0]) == (o.res != 0);
    case BINSERT: { int n = 0; for (int i = 0; i < o.n; ++i) n += put(o.k[i], o.v[i]); return (n == o.n) == (o.res != 0); }
    case BERASE: { int n = 0; for (int i = 0; i < o.n; ++i) n += del(o.k[i]); return (n == o.n) == (o.res != 0); }
    case SIZE: return o.res == used;
    case CLEAR: std::fill(s.begin(), s.end(), 0); return true;
    case EACH: case LOOK: for (unsigned i = 0; i < K; ++i) if ((o.k[i] != 0) != (s[i] != 0) || (s[i] && s[i] != o.v[i])) return false; return true;
    default: if (o.res != (s[o.k[0]] != 0) || (o.res && o.v[1] != s[o.k[0]])) return false; return put(o.k[0], o.v[0]) == (o.n != 0);
    }
}
struct Search
{
    const std::vector<Op> &v; const St &fin; std::unordered_set<uint64_t> seen; size_t budget; bool out;
    Search(const std::vector<Op> &ops, const St &f): v(ops), fin(f), budget(400000), out(false) {}
    bool go(uint64_t done, const St &s)
    {
        if (done == (v.size() == 64 ? ~0ull : (1ull << v.size()) - 1)) return s == fin;
        uint64_t h = mix(99, done); for (uint64_t x : s) h = mix(h, x);
        if (!seen.insert(h).second) return false;
        if (seen.size() > budget) { out = true; return false; }
        uint64_t first = ~0ull; for (size_t i = 0; i < v.size(); ++i) if (!(done >> i & 1)) first = std::min(first, v[i].e);
        for (size_t i = 0; i < v.size(); ++i)
        {
            if ((done >> i & 1) || v[i].s > first) continue;
            St t(s); if (apply(v[i], t) && go(done | 1ull << i, t)) return true;
            if (out) return false;
        }
        return false;
    }
};
static string show_op(const Op &o, uint64_t base)
{
    string r = fmt("client %d [%llu..%llu us] %s(", o.client, (unsigned long long) (o.s - base) / 1000, (unsigned long long) (o.e - base) / 1000, names[o.what]);
    if (o.what == EACH || o.what == LOOK) { for (unsigned i = 0; i < K; ++i) if (o.k[i]) r += fmt("%u:%llu ", i, (unsigned long long) o.v[i] % 1000000); return r + ")"; }
    int n = o.what == BINSERT || o.what == BERASE ? o.n : o.what == SIZE || o.what == CLEAR ? 0 : 1;
    for (int i = 0; i < n; ++i) r += fmt("%d:%llu ", o.k[i], o.what == ERASE || o.what == BERASE ? 0ull : (unsigned long long) o.v[i] % 1000000);
    return r + fmt(")=%d", o.res);
}

static St contents(IMap *m)
{
    std::vector<KV> v; bool whole; Dog d("reading the map after a round");
    m->lock(false); bool ends = m->each(v, CAP + 2, whole); m->unlock(false);
    CHECK(ends && whole, "corrupt", "after concurrent use, iteration %s", ends ? "shows a torn value" : "does not end");
    St s(K, 0);
    for (KV &q : v) { int i = key_index(q.first); CHECK(i >= 0 && !s[(size_t) i], "corrupt", "after concurrent use, iteration shows a foreign or repeated key"); s[(size_t) i] = q.second; }
    CHECK(m->size() == v.size(), "corrupt", "after concurrent use, the size is %zu with %zu entries", m->size(), v.size());
    return s;
}

static void client(IMap *m, uint64_t seed, int id, int per, int delay, int slow, unsigned mixk)
{
    Rng r(seed); slow_rng = &r; slow_us = slow; uint64_t st = 0;
    for (int round = 1; ; ++round)
    {
        sh->arrived.fetch_add(1);
        for (int spin = 0; sh->round.load() < round; ++spin) { if (sh->stop.load()) return; if (spin > 2000) usleep(20); }
        for (int i = 0; i < per; ++i)
        {
            Op o; memset(&o, 0, sizeof o); o.client = (uint8_t) id;
            static const uint8_t mixes[4][10] = { { READ, READ, INSERT, INSERT, ERASE, BINSERT, BERASE, SIZE, EACH, TAKE }, { READ, INSERT, READ, INSERT, READ, INSERT, ERASE, LOOK, TAKE, TAKE },
                                              { BINSERT, BERASE, BINSERT, BERASE, EACH, LOOK, READ, SIZE, INSERT, ERASE }, { INSERT, ERASE, INSERT, ERASE, READ, SIZE, CLEAR, BINSERT, TAKE, LOOK } };
            o.what = mixes[mixk & 3][r.below(10)]; o.n = (uint8_t) (1 + r.below(r.chance(1, 3) ? MAXN : MAXK));
            for (int j = 0; j < MAXN; ++j) { o.k[j] = (uint8_t) r.below(K); do o.v[j] = cut((uint64_t) (id + 1) * 1000000007ull + (uint64_t) round * 100003 + (st++ << 40), VS); while (!o.v[j]); }
            if (r.chance(1, 4)) dawdle();
            { Sys sys; vp_sys.rng = &r; vp_sys.delay = delay; perform(m, o); }
            int at = sh->n.fetch_add(1); HCHECK(at < MAXOPS, "too many operations"); sh->op[at] = o;
        }
    }
}

static void session(Rng &r)
{
    unsigned t = (unsigned) r.below(TYPES); IMap *m = make(t); CAP = (unsigned) m->N(); VS = m->vsize(); K = std::min<unsigned>(MAXK, CAP + 1);
    for (unsigned i = 0; i < K; ++i) keys[i] = r.chance(1, 2) ? i * (uint64_t) m->H() + 5 : r.next();
    Key key; m->connect(key.c()); new (sh) Shm();
    int procs = 1 + (int) r.below(4), threads = 1 + (int) r.below(3), clients = procs * threads;
    if (clients > MAXCL) { threads = 2; clients = procs * 2; }
    if (clients < 2) { procs = 2; clients = procs * threads; }
    int per = std::max(1, std::min(8, 4 + (int) r.below(20) / clients)); while (per * clients > MAXOPS) --per;
    int rounds = 30 + (int) r.below(50), delay = r.chance(1, 3) ? 0 : (int) r.below(120), slow = r.chance(1, 4) ? 0 : 1 + (int) r.below(60); bool own = r.chance(1, 2), sigs = r.chance(1, 4); unsigned mixk = (unsigned) r.below(4);
    std::vector<uint64_t> seeds; for (int i = 0; i < clients; ++i) seeds.push_back(r.next());
    std::vector<pid_t> kids;
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = spawn();
        if (!k)
        {
            std::vector<IMap *> ms; std::vector<std::thread> ts;
            for (int i = 0; i < (own ? threads : 1); ++i) { ms.push_back(make(t)); for (;;) { try { ms.back()->connect(key.c()); break; } catch (const std::exception &e) { CHECK(sigs && strstr(e.what(), "Interrupted"), "unexpected-exception", "connect throws: %s", e.what()); } } }
            for (int i = 0; i < threads; ++i) { IMap *x = ms[own ? (size_t) i : 0]; int id = p * threads + i; uint64_t seed = seeds[(size_t) id]; ts.push_back(std::thread([=] { client(x, seed, id, per, delay, slow, mixk); })); }
            for (auto &x : ts) x.join();
            for (IMap *x : ms) delete x;
            _exit(0);
        }
        kids.push_back(k);
    }
    St s(K, 0); double lim = now() + 60; uint64_t h = mix(t, (uint64_t) clients), lin = 0, over = 0, ops = 0;
    auto wait_for = [&](int n) {
        int spin = 0; double t0 = now();
        while (sh->arrived.load() < n)
        {
            if (sigs && r.chance(1, 3)) { sh->signals.fetch_add(1); kill(kids[r.below(kids.size())], SIGUSR1); }
            if (++spin > 200) usleep(15);
            int st; if (spin % 64 == 0) for (pid_t q : kids) { siginfo_t si; si.si_pid = 0; if (waitid(P_PID, (id_t) q, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid == q) { (void) st; sh->stop = 1; for (pid_t z : kids) if (z != q) kill(z, SIGKILL); int stt; waitpid(q, &stt, 0); settle(WIFEXITED(stt) ? WEXITSTATUS(stt) : 1000 + WTERMSIG(stt), "concurrent use"); harness_error("a client left early"); } }
            if (now() - t0 > 20) { for (pid_t q : kids) kill(q, SIGKILL); violation("blocked", "an operation of %d concurrent clients does not return within 20 s", clients); }
        }
    };
    wait_for(clients);
    for (int round = 1; round <= rounds && now() < lim; ++round)
    {
        sh->n = 0; sh->arrived = 0; sh->round = round;
        wait_for(clients);
        int n = sh->n.load(); std::vector<Op> v;
        for (int i = 0; i < n; ++i) { if (!sh->op[i].failed) v.push_back(sh->op[i]); }
        std::sort(v.begin(), v.end(), [](const Op &a, const Op &b) { return a.e < b.e; });
        CHECK(sh->readers.load() == 0 && sh->writers.load() == 0, "lock-shared", "lock holders left");
        St f = contents(m);
        Search q(v, f); bool ok = q.go(0, s);
        if (!ok && q.out) ev("histories too wide to search");
        else if (!ok)
        {
            string text; uint64_t base = v.empty() ? 0 : v[0].s; for (Op &o : v) base = std::min(base, o.s);
            for (unsigned i = 0; i < K; ++i) text += fmt("%u:%llu ", i, (unsigned long long) s[i] % 1000000);
            text = "from " + text + "; "; for (Op &o : v) text += show_op(o, base) + "; ";
            text += "to "; for (unsigned i = 0; i < K; ++i) text += fmt("%u:%llu ", i, (unsigned long long) f[i] % 1000000);
            sh->stop = 1; for (pid_t z : kids) kill(z, SIGKILL);
            violation("not-linearizable", "no order of the %zu operations of %d clients (capacity %u) explains their results: %s", v.size(), clients, CAP, text.c_str());
        }
        s = f; ++lin; ops += v.size(); evaluated(1);
        uint64_t hr = h; uint64_t last = 0;
        std::sort(v.begin(), v.end(), [](const Op &a, const Op &b) { return a.s < b.s; });
        for (Op &o : v) { if (o.s < last) ++over; last = std::max(last, o.e); hr = mix(hr, o.client); hr = mix(hr, o.what * 256u + o.res); hr = mix(hr, o.s < last); ev(names[o.what]); }
        distinct(hr);
        if (want_sample()) { string x; for (size_t i = 0; i < v.size() && i < 5; ++i) x += show_op(v[i], v[0].s) + "; "; sample("%d processes of %d threads, %zu operations: %s...", procs, threads, v.size(), x.c_str()); }
    }
    sh->stop = 1;
    settle(join(kids, 20, std::set<size_t>(), "the end of a session"), "concurrent use");
    ev("histories searched", lin); ev("operations overlapping an earlier one", over); ev("sessions"); if (sigs) ev("sessions with signals");
    ev("operations interrupted by a signal", sh->interrupted.load()); ev("holders checked for exclusion", sh->lockchecks.load());
    delete m;
}
void vp_init() { shm_start(); }
void vp_custom()
{
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) {}; sigaction(SIGUSR1, &a, 0);
    sh = shared<Shm>(); double end = now() + opt.num("budget", 1000);
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i) { Rng r(mix(mix(opt.seed, opt.shard), mix(i, (uint64_t) opt.num("seedoff", 0)))); session(r); }
}
void vp_case(In &) { }
uint64_t vp_exh_count(bool) { return 0; }
void vp_exh(uint64_t) { }
