// C19 connecting to and leaving shared maps: orders of connections, mismatches, failing calls, concurrent first connections.
#define VP_SYSWRAP_IMPL
#include "shmmap.hpp"
#include <atomic>

enum { TYPES = 9 };
static IMap *make(unsigned t)
{
    switch (t)
    {
    case 0: return new MapOf<uint64_t, 3, 2>;
    case 1: return new MapOf<uint64_t, 4, 2>;       // other capacity
    case 2: return new MapOf<uint64_t, 3, 3>;       // other bucket count
    case 3: return new MapOf<uint32_t, 3, 2>;       // other value size
    case 4: return new MapOf<Big, 3, 2>;            // larger
    case 5: return new MapOf<uint64_t, 2, 3>;       // capacity and buckets exchanged with 0
    case 6: return new MapOf<W5, 400, 700>;         // much larger
    case 7: return new MapOf<uint8_t, 1, 1>;        // smallest
    default: return new MapOf<uint64_t, 1000, 2>;
    }
}
static size_t cap_of(unsigned t) { IMap *m = make(t); size_t n = (size_t) m->N(); delete m; return n; }

static void verify(IMap *m, const Model &model, const char *when)
{
    Dog d(when);
    std::vector<KV> v; bool whole; m->lock(false); bool ends = m->each(v, (size_t) m->N() + 2, whole); m->unlock(false);
    CHECK(ends && whole && v.size() == Model(v.begin(), v.end()).size() && Model(v.begin(), v.end()) == model, "contents", "%s: the map shows %zu entries, %zu expected, or other values", when, v.size(), model.size());
    CHECK(m->size() == model.size(), "contents", "%s: size %zu, expected %zu", when, m->size(), model.size());
    // the write lock is free too
    m->lock(true); m->unlock(true);
    for (auto &q : model) { uint64_t s = 0; bool w, r = m->read(q.first, s, w); CHECK(r && w && s == q.second, "contents", "%s: a key is lost", when); }
}

// ---- orders of connections in one process (and short-lived others) ---------------------------------------------------------
struct File { Key key; int geo; Model model; size_t raw; File(): key("map"), geo(-1), raw(0) {} };   // raw: size of a segment nobody initialised yet
static const int errs[] = { EACCES, ENOSPC, ENOMEM, EINVAL, EPERM, EINTR, EIDRM };

static void orders(Rng &r)
{
    enum { OBJ = 5 };
    File f[2]; IMap *o[OBJ]; int typ[OBJ], at[OBJ]; uint64_t h = 5; string log; uint64_t st = 1; unsigned favour = (unsigned) r.below(TYPES);
    auto newtype = [&] { return r.chance(2, 3) ? favour : (unsigned) r.below(TYPES); };
    for (int i = 0; i < OBJ; ++i) { typ[i] = (int) newtype(); o[i] = make((unsigned) typ[i]); at[i] = -1; }
    auto say = [&](const string &s) { if (log.size() < 1200) log += s + ' '; h = hash(s, h); };
    auto state = [&](const char *when) {
        for (int k = 0; k < 2; ++k)
        {
            long n = 0; for (int i = 0; i < OBJ; ++i) n += at[i] == k;
            long a = f[k].key.attached();
            CHECK(a == n, a > n ? "mapping-kept" : "mapping-lost", "%s: %ld mappings of the segment for %ld connected objects (%s)", when, a, n, log.c_str());
            if (f[k].geo < 0) continue;
            for (int i = 0; i < OBJ; ++i) if (at[i] == k) { verify(o[i], f[k].model, log.c_str()); break; }
            if (r.chance(1, 3))
            {
                // a newcomer can go on
                IMap *p = make((unsigned) f[k].geo); Dog d(log.c_str());
                try { p->connect(f[k].key.c()); } catch (const std::exception &e) { violation("connect-fails", "a newcomer cannot connect: %s (%s)", e.what(), log.c_str()); }
                verify(p, f[k].model, log.c_str()); delete p;
            }
        }
        for (int i = 0; i < OBJ; ++i) CHECK(o[i]->connected() == (at[i] >= 0), "is-connected", "%s: an object %s says it is%s connected (%s)", when, at[i] >= 0 ? "connected" : "not connected", o[i]->connected() ? "" : " not", log.c_str());
    };
    int steps = 5 + (int) r.below(40);
    for (int n = 0; n < steps; ++n)
    {
        int i = (int) r.below(OBJ), k = (int) r.below(3) ? 0 : 1; File &F = f[k]; unsigned act = (unsigned) r.below(20);
        if (act < 9)
        {
            bool missing = r.chance(1, 12), again = at[i] >= 0; long fail = r.chance(1, 3) ? 1 + (long) r.below(10) : 0; int err = errs[r.below(7)];
            if (missing) fail = 0;
            bool match = F.geo < 0 || F.geo == typ[i], threw = false; string why; const char *failed = 0;
            int before = at[i];
            say(fmt("%s%d:%d->%d%s%s", again ? "again" : "connect", i, typ[i], k, missing ? "(no file)" : "", fail ? fmt("(call %ld fails: %s)", fail, strerror(err)).c_str() : ""));
            {
                Dog d(log.c_str()); Sys s(fail, err);
                try { o[i]->connect(missing ? "/nonexistent/key" : F.key.c()); } catch (const std::exception &e) { threw = true; why = e.what(); }
                failed = s.failed();
            }
            if (failed) ev("connections with a failing call");
            if (again)
            {
                // which of its two connections such an object keeps is its own affair, but it says so
                CHECK(threw, "connect-twice", "connecting a connected object succeeds (%s)", log.c_str());
                if (!o[i]->connected()) at[i] = -1;
                ev("connections of connected objects");
            }
            else if (threw)
            {
                bool small = F.geo < 0 && F.raw && o[i]->space() > F.raw;      // a segment left by a failed creation is too small for this one
                if (small) match = false;
                CHECK(missing || !match || failed, "connect-fails", "connecting fails: %s (%s)", why.c_str(), log.c_str());
                if (missing) ev("connections without a key file"); else if (!match) ev("mismatched connections"); else ev("connections failed by a call");
                at[i] = -1;
            }
            else
            {
                CHECK(!missing, "connect-missing", "connecting through a missing file succeeds");
                CHECK(match, "mismatch-accepted", "an object of geometry %d connects to a map of geometry %d (%s)", typ[i], F.geo, log.c_str());
                F.geo = typ[i]; at[i] = k; ev("connections");
            }
            (void) before;
            if (F.geo < 0 && !F.raw && F.key.shm() >= 0) { struct shmid_ds d; shmctl(F.key.shm(), IPC_STAT, &d); F.raw = d.shm_segsz; }
            if (F.geo < 0 && F.raw && o[i]->space() > F.raw) match = false;
            // the same object can be connected again
            if (threw && at[i] < 0 && match && !missing && r.chance(2, 3))
            {
                say("retry"); Dog d(log.c_str());
                try { o[i]->connect(F.key.c()); } catch (const std::exception &e) { violation("reconnect-fails", "after a failed connect (%s), the object cannot be connected: %s (%s)", why.c_str(), e.what(), log.c_str()); }
                F.geo = typ[i]; at[i] = k; ev("connections after a failed one");
            }
        }
        else if (act < 13) { say(fmt("disconnect%d", i)); o[i]->disconnect(); at[i] = -1; if (r.chance(1, 4)) o[i]->disconnect(); ev("disconnections"); }
        else if (act < 14) { say(fmt("destroy%d", i)); delete o[i]; typ[i] = (int) newtype(); o[i] = make((unsigned) typ[i]); at[i] = -1; ev("objects destroyed"); }
        else if (act < 18)
        {
            if (at[i] >= 0)
            {
                Model &m = f[at[i]].model; Dog d(log.c_str());
                uint64_t key = r.below(6); say(fmt("use%d", i));
                if (r.chance(2, 3)) { uint64_t v = cut(mix(7, st++), o[i]->vsize()); bool can = m.count(key) || m.size() < (size_t) o[i]->N(), q = o[i]->insert(key, v); CHECK(q == can, "contents", "an insert returns %d (%s)", q, log.c_str()); if (can) m[key] = v; }
                else { bool q = o[i]->erase(key); CHECK(q == (m.erase(key) != 0), "contents", "an erase returns %d (%s)", q, log.c_str()); }
                ev("operations between connections");
            }
        }
        else if (F.geo >= 0)
        {
            // another process comes and goes, leaving by disconnecting, by exiting or by force
            unsigned how = (unsigned) r.below(3); uint64_t key = r.below(6), v = 0; bool can = F.model.count(key) || F.model.size() < cap_of((unsigned) F.geo);
            say(fmt("process%u->%d", how, k)); std::vector<pid_t> kids;
            { IMap *x = make((unsigned) F.geo); v = cut(mix(9, st++), x->vsize()); delete x; }
            pid_t p = spawn();
            if (!p)
            {
                IMap *m = make((unsigned) F.geo);
                { Dog d(log.c_str()); m->connect(F.key.c()); }
                verify(m, F.model, "in another process");
                CHECK(m->insert(key, v) == can, "contents", "an insert in another process (%s)", log.c_str());
                if (how == 0) { m->disconnect(); CHECK(!m->connected(), "is-connected", "connected after disconnect"); }
                if (how == 2) raise(SIGKILL);
                _exit(0);
            }
            kids.push_back(p); std::set<size_t> may; if (how == 2) may.insert(0);
            settle(join(kids, 30, may, log.c_str()), "another process");
            if (can) F.model[key] = v;
            ev("other processes connected");
        }
        state("after a step");
    }
    for (int i = 0; i < OBJ; ++i) delete o[i];
    for (int k = 0; k < 2; ++k)
    {
        CHECK(f[k].key.attached() == 0, "mapping-kept", "mappings are left after all objects are gone (%s)", log.c_str());
        if (f[k].geo >= 0) { IMap *p = make((unsigned) f[k].geo); { Dog d(log.c_str()); p->connect(f[k].key.c()); } verify(p, f[k].model, "in the end"); delete p; }
    }
    evaluated(1); distinct(h); ev("orders of connections");
    if (want_sample()) sample("%s", S(log));
}

// ---- one process stands still at every point of its first connection ---------------------------------------------------------
struct Shm
{
    std::atomic<int> ready, go, paused, resume, adone, athrew, bstate, cgot, hold, inside, max, connected, errors; std::atomic<int> round;
};
static Shm *sh;
struct Stop { long at, n; };
static void stop_hook(void *a, const char *, int) { Stop *s = (Stop *) a; if (++s->n == s->at) { sh->paused = 1; while (!sh->resume.load()) usleep(30); } }

static bool wait_flag(std::atomic<int> &f, double s) { double a = now(); while (!f.load()) { if (now() - a > s) return false; usleep(20); } return true; }

// returns false once the point lies beyond the end of the connection
static bool standing(unsigned t, unsigned ta, long at, bool existing, bool hold_read)
{
    Key key("map"); Model model; new (sh) Shm();
    if (existing) { IMap *m = make(t); m->connect(key.c()); m->insert(1, 1); delete m; model[1] = 1; }
    std::vector<pid_t> kids; string what = fmt("a process stands still at point %ld of its connection", at);
    pid_t a = spawn();
    if (!a)
    {
        IMap *m = make(ta); Stop st = { at, 0 };
        try { Sys s; vp_sys.hook = stop_hook; vp_sys.arg = &st; m->connect(key.c()); } catch (const std::exception &e) { sh->athrew = 1; }
        sh->adone = 1;
        wait_flag(sh->go, 60);
        if (!sh->athrew.load()) m->insert(11, 11);
        _exit(0);
    }
    kids.push_back(a);
    { double t0 = now(); while (!sh->paused.load() && !sh->adone.load()) { HCHECK(now() - t0 < 20, "no pause"); usleep(20); } }
    if (!sh->paused.load()) { sh->go = 1; settle(join(kids, 20, std::set<size_t>(), "connecting"), what.c_str()); return false; }
    // B connects meanwhile (or waits for A), then holds a lock
    pid_t b = spawn();
    if (!b)
    {
        IMap *m = make(t);
        for (;;) { try { m->connect(key.c()); break; } catch (const std::exception &e) { if (ta == t) { sh->errors = 1; violation("connect-fails", "%s: another one fails: %s", what.c_str(), e.what()); } usleep(1000); } }
        m->lock(!hold_read); sh->bstate = 1;
        wait_flag(sh->hold, 60);
        if (!hold_read) m->uinsert(22, 22);
        m->unlock(!hold_read);
        if (hold_read) m->insert(22, 22);
        sh->bstate = 2; wait_flag(sh->go, 60);
        _exit(0);
    }
    kids.push_back(b);
    bool bfirst = wait_flag(sh->bstate, 0.03);
    sh->resume = 1;
    pid_t c = 0;
    // while B holds its lock, nobody else may write, whatever A does now
    if (ta != t && !bfirst) { /* A may win the map for its own geometry */ }
    bool b_in = wait_flag(sh->bstate, ta == t ? 15 : 0.2);
    if (ta == t) { if (!b_in) { for (pid_t k : kids) kill(k, SIGKILL); violation("blocked", "%s: after it goes on, another cannot connect", what.c_str()); } }
    if (b_in)
    {
        wait_flag(sh->adone, 0.02);
        c = spawn();
        if (!c)
        {
            alarm(20);
            IMap *m = make(t); m->connect(key.c()); sh->connected = 1; m->lock(true); sh->cgot = 1; m->unlock(true); _exit(0);
        }
        kids.push_back(c);
        usleep(8000);
        CHECK(!sh->cgot.load(), "lock-lost", "%s: while another process holds the %s lock, a third one gets the write lock", what.c_str(), hold_read ? "read" : "write");
        sh->hold = 1;
        bool done = false; double t0 = now(); while (now() - t0 < 15) { if (sh->bstate.load() == 2) { done = true; break; } usleep(30); }
        if (!done) { for (pid_t k : kids) kill(k, SIGKILL); violation("lock-lost", "%s: the holder of the lock cannot release it", what.c_str()); }
        if (!wait_flag(sh->adone, 15)) { for (pid_t k : kids) kill(k, SIGKILL); violation("blocked", "%s: it never finishes connecting", what.c_str()); }
        if (ta == t) CHECK(!sh->athrew.load(), "connect-fails", "%s: it fails to connect", what.c_str());
        else CHECK(sh->athrew.load(), "mismatch-accepted", "%s: two geometries are accepted", what.c_str());
        sh->go = 1;
        settle(join(kids, 20, std::set<size_t>(), what.c_str()), what.c_str());
        model[22] = 22; if (ta == t) model[11] = 11;
        IMap *m = make(t); { Dog d(what.c_str()); m->connect(key.c()); } verify(m, model, what.c_str()); delete m;
    }
    else
    {
        // A made the map in its own geometry, so B cannot connect: both are right
        sh->errors = 1; kill(b, SIGKILL); sh->go = 1; std::set<size_t> may; may.insert(1);
        settle(join(kids, 20, may, what.c_str()), what.c_str());
        IMap *m = make(ta); { Dog d(what.c_str()); m->connect(key.c()); } delete m;
        ev("first connections won by the one standing still");
    }
    evaluated(1); distinct(mix(mix(t, ta), mix((uint64_t) at, existing * 2u + hold_read))); ev("points of standing still");
    if (bfirst) ev("others connected meanwhile");
    return true;
}

// ---- all at once ----------------------------------------------------------------------------------------------------------
static void crowd(Rng &r)
{
    Key key("map"); new (sh) Shm();
    int procs = 2 + (int) r.below(6), delay = r.chance(1, 5) ? 0 : 1 + (int) r.below(200); unsigned t = 8; bool rivals = r.chance(1, 3);
    std::vector<uint64_t> seeds; for (int p = 0; p < procs; ++p) seeds.push_back(r.next());
    std::vector<pid_t> kids; int cycles = 1 + (int) r.below(4);
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = spawn();
        if (!k)
        {
            Rng q(seeds[(size_t) p]); bool odd = rivals && q.chance(1, 2); IMap *m = make(odd ? 4u : t);
            sh->ready.fetch_add(1); while (!sh->go.load()) ;
            if (q.chance(1, 3)) usleep((useconds_t) q.below((uint64_t) delay * 3 + 1));
            bool threw = false; string why;
            try { Sys s; vp_sys.rng = &q; vp_sys.delay = delay; m->connect(key.c()); } catch (const std::exception &e) { threw = true; why = e.what(); }
            if (rivals && threw)
            {
                // the other geometry won
                CHECK(!m->connected(), "is-connected", "an object whose connection failed says it is connected");
                delete m; odd = !odd; m = make(odd ? 4u : t); threw = false;
                try { m->connect(key.c()); } catch (const std::exception &e) { threw = true; why = e.what(); }
            }
            CHECK(!threw, "connect-fails", "one of %d concurrent first connections fails: %s", procs, why.c_str());
            for (int n = 0; n < 20; ++n)
            {
                m->lock(true);
                CHECK(sh->inside.fetch_add(1) == 0, "lock-lost", "two processes hold the write lock after connecting concurrently");
                if (q.chance(1, 8)) usleep(20);
                sh->inside.fetch_sub(1);
                if (!odd) m->uinsert((uint64_t) (p * 100 + n), (uint64_t) p + 1);
                m->unlock(true);
                if (n == 10 && cycles > 1) { m->disconnect(); Sys s; vp_sys.rng = &q; vp_sys.delay = delay; m->connect(key.c()); --cycles; }
            }
            if (odd) { m->insert(0, (uint64_t) 1); }
            sh->connected.fetch_add(odd ? 1000 : 1);
            while (sh->round.load() == 0) usleep(50);
            m->disconnect(); delete m;
            _exit(0);
        }
        kids.push_back(k);
    }
    while (sh->ready.load() < procs) usleep(20);
    sh->go = 1;
    { double t0 = now(); while (sh->connected.load() % 1000 + sh->connected.load() / 1000 < procs) { if (now() - t0 > 20) break; usleep(50); int st; if (waitpid(-1, &st, WNOHANG | WNOWAIT) > 0) break; } }
    // each connected process maps the one segment
    int c = sh->connected.load(); long att = key.attached();
    int odd = c / 1000, even = c % 1000;
    bool all = odd + even == procs;
    if (all) CHECK(att == procs, "two-maps", "%d connected processes, %ld mappings of the segment", procs, att);
    CHECK(!(odd && even), "mismatch-accepted", "two geometries are accepted by concurrent first connections");
    sh->round = 1;
    settle(join(kids, 20, std::set<size_t>(), "concurrent first connections"), "concurrent first connections");
    HCHECK(all, "not all connected");
    CHECK(key.attached() == 0, "mapping-kept", "mappings are left after all have disconnected");
    Model model;
    if (even) for (int p = 0; p < procs; ++p) for (int n = 0; n < 20; ++n) model[(uint64_t) (p * 100 + n)] = (uint64_t) p + 1; else model[0] = 1;
    IMap *m = make(even ? t : 4u); { Dog d("connecting after a crowd"); m->connect(key.c()); } verify(m, model, "after concurrent first connections"); delete m;
    evaluated(1); distinct(mix(mix((uint64_t) procs, (uint64_t) delay), seeds[0])); ev("crowds"); ev("concurrent first connections", (uint64_t) procs); if (rivals) ev("crowds of two geometries");
    if (want_sample()) sample("crowd of %d processes, pauses up to %d us%s", procs, delay, rivals ? ", two geometries" : "");
}

void vp_init() { shm_start(); }
void vp_custom()
{
    sh = shared<Shm>(); double end = now() + opt.num("budget", 1000); uint64_t c = 0;
    string mode = opt.str("mode", "orders");
    if (mode == "standing")
    {
        static const unsigned ty[][2] = { { 0, 0 }, { 0, 4 }, { 4, 4 }, { 0, 1 }, { 6, 6 } };
        for (unsigned v = 0; v < (opt.thorough ? 5u : 2u); ++v)
            for (int ex = 0; ex < 2; ++ex) for (int rd = 0; rd < 2; ++rd)
                for (long at = 1; ; ++at)
                {
                    if (c++ % opt.shards != opt.shard) { if (at > 60) break; continue; }
                    if (!standing(ty[v][0], ex ? ty[v][0] : ty[v][1], at, ex, rd)) { if (at > 8) break; }
                    if (at > 60) break;
                }
        return;
    }
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i)
    {
        Rng r(mix(mix(opt.seed, opt.shard), mix(i, (uint64_t) opt.num("seedoff", 0))));
        if (mode == "orders") orders(r); else crowd(r);
    }
}
void vp_case(In &) { }
uint64_t vp_exh_count(bool) { return 0; }
void vp_exh(uint64_t) { }
