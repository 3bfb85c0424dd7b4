// C22 shared queues when connecting fails, signals arrive, processes die or all connect at once.
#define VP_SYSWRAP_IMPL
#include "shmqueue.hpp"
#include <atomic>

typedef std::vector<uint64_t> Box;
static const int errs[] = { EACCES, ENOSPC, ENOMEM, EINVAL, EPERM, EINTR, EIDRM };
struct Geo { unsigned t; uint32_t bs, n; };
static const Geo geos[] = { { 0, 18, 4 }, { 0, 18, 2 }, { 0, 36, 2 }, { 0, 9, 8 }, { 2, 96, 5 }, { 4, 200, 7 }, { 3, 8192, 1000 }, { 0, 65536, 65536 }, { 0, 18, 6 }, { 0, 27, 4 } };
enum { GEOS = 10, HUGE_GEO = 7 };
static size_t need(const Geo &g) { return (size_t) g.bs * g.n + sizeof(shm_queue::queue_info); }

// puts a box of one or more records with the given number
static Box fill(IQueue *w, const Geo &g, uint64_t id)
{
    Box b; size_t pos = 0, sz = w->rec(20);
    for (uint64_t k = 0; k < 4 && pos + sz <= g.bs && (k == 0 || (id * 7 + k) % 3); ++k, pos += sz) { uint64_t me = w->cutid(id * 4 + k); CHECK(w->put(me, 20), "put-refused", "a record that fits is refused"); b.push_back(me); }
    return b;
}
static Box empty_box(IQueue *r, const char *when)
{
    Box b; Got g; while (r->get(g)) { CHECK(g.whole, "box-damaged", "%s: a record arrives damaged", when); b.push_back(g.id); HCHECK(b.size() < 20000, "endless box"); }
    return b;
}
static string show(const std::vector<Box> &v) { string s; for (auto &b : v) { s += '('; for (uint64_t x : b) s += fmt("%llu ", (unsigned long long) x); s += ')'; if (s.size() > 300) break; } return s; }

// ---- orders of connections --------------------------------------------------------------------------------------------------
struct File { Key key; int geo; size_t raw; std::vector<Box> q; uint32_t reg[12]; File(): key("queue"), geo(-1), raw(0) { memset(reg, 0, sizeof reg); } };

static void check_queue(IQueue *o, File &f, bool drain, const char *when)
{
    Dog d(when);
    CHECK(o->boxes() == (long) f.q.size(), "box-count", "%ld boxes reported, %zu are unread (%s)", o->boxes(), f.q.size(), when);
    for (int i = 0; i < 12; ++i) { uint32_t v = o->get_register((uint8_t) i); CHECK(v == f.reg[i], "register", "register %d holds %u, not %u (%s)", i, v, f.reg[i], when); }
    if (!drain) return;
    while (!f.q.empty())
    {
        CHECK(o->unflush(IPC_NOWAIT, 1000), "box-lost", "a box is lost (%s)", when);
        Box b = empty_box(o, when); CHECK(b == f.q[0], "box-wrong", "a box arrives with other records (%s)", when); f.q.erase(f.q.begin());
    }
    CHECK(!o->unflush(IPC_NOWAIT, 1000), "box-from-nowhere", "a box too many (%s)", when);
}

static void orders(Rng &r)
{
    enum { OBJ = 5 };      // even ones write, odd ones read
    File f[2]; IQueue *o[OBJ]; int typ[OBJ], at[OBJ]; uint64_t h = 5, id = 1; string log; int favour = (int) r.below(GEOS);
    auto newgeo = [&] { return r.chance(3, 5) ? favour : (int) r.below(GEOS); };
    for (int i = 0; i < OBJ; ++i) { typ[i] = newgeo(); o[i] = make_queue(geos[typ[i]].t, r.chance(1, 2) ? (i % 2 ? 1 : 2) : 0); at[i] = -1; }
    auto say = [&](const string &s) { if (log.size() < 1500) log += s + ' '; h = hash(s, h); };
    auto newcomer = [&](int k, bool drain) {
        const Geo &g = geos[f[k].geo]; IQueue *p = make_queue(g.t); Dog d(log.c_str());
        try { p->connect(f[k].key.c(), g.bs, g.n); } catch (const std::exception &e) { violation("connect-fails", "a newcomer cannot connect: %s (%s)", e.what(), log.c_str()); }
        check_queue(p, f[k], drain, log.c_str()); delete p;
    };
    int steps = 5 + (int) r.below(35);
    for (int n = 0; n < steps; ++n)
    {
        int i = (int) r.below(OBJ), k = (int) r.below(3) ? 0 : 1; File &F = f[k]; unsigned act = (unsigned) r.below(20); const Geo &G = geos[typ[i]];
        if (act < 8)
        {
            bool missing = r.chance(1, 12), none = !missing && r.chance(1, 15), again = at[i] >= 0; long fail = r.chance(1, 3) ? 1 + (long) r.below(9) : 0; int err = errs[r.below(7)];
            if (missing || none) fail = 0;
            bool match = F.geo < 0 || F.geo == typ[i], threw = false; string why; const char *failed = 0;
            say(fmt("%s%d:%ux%u->%d%s%s", again ? "again" : "connect", i, G.n, G.bs, k, missing ? "(no file)" : none ? "(no boxes)" : "", fail ? fmt("(call %ld fails: %s)", fail, strerror(err)).c_str() : ""));
            {
                Dog d(log.c_str()); Sys s(fail, err);
                try { o[i]->connect(missing ? "/nonexistent/key" : F.key.c(), G.bs, none ? 0 : G.n); } catch (const std::exception &e) { threw = true; why = e.what(); }
                failed = s.failed();
            }
            if (failed) ev("connections with a failing call");
            if (again)
            {
                CHECK(threw, "connect-twice", "connecting a connected object succeeds (%s)", log.c_str());
                o[i]->disconnect(); at[i] = -1; ev("connections of connected objects");
            }
            else if (threw)
            {
                bool small = F.geo < 0 && F.raw && need(G) > F.raw;     // a segment left by a failed creation is too small for this one
                bool big = typ[i] == HUGE_GEO && F.geo < 0;             // the kernel may have its limits
                CHECK(missing || none || !match || failed || small || big, "connect-fails", "connecting fails: %s (%s)", why.c_str(), log.c_str());
                if (missing) ev("connections without a key file"); else if (none) ev("connections with no boxes"); else if (!match) ev("mismatched connections"); else ev("connections failed by a call");
                if (small || big || none) match = false;
                if (F.geo < 0 && !F.raw && F.key.shm() >= 0) { struct shmid_ds d; shmctl(F.key.shm(), IPC_STAT, &d); F.raw = d.shm_segsz; }
            }
            else
            {
                CHECK(!missing, "connect-missing", "connecting through a missing file succeeds");
                CHECK(!none, "connect-no-boxes", "connecting to a queue of no boxes succeeds");
                CHECK(match, "mismatch-accepted", "%u boxes of %u bytes are accepted for a queue of %u boxes of %u (%s)", G.n, G.bs, geos[F.geo].n, geos[F.geo].bs, log.c_str());
                F.geo = typ[i]; at[i] = k; ev("connections");
            }
            if (!missing && (threw || again) && at[i] < 0 && (F.geo < 0 ? !F.raw || need(G) <= F.raw : F.geo == typ[i]) && typ[i] != HUGE_GEO && r.chance(3, 4))
            {
                say("retry"); Dog d(log.c_str());
                try { o[i]->connect(F.key.c(), G.bs, G.n); } catch (const std::exception &e) { violation("reconnect-fails", "after a failed connect (%s), the object cannot be connected: %s (%s)", why.c_str(), e.what(), log.c_str()); }
                F.geo = typ[i]; at[i] = k; ev("connections after a failed one");
            }
        }
        else if (act < 11) { say(fmt("disconnect%d", i)); o[i]->disconnect(); at[i] = -1; if (r.chance(1, 4)) o[i]->disconnect(); ev("disconnections"); }
        else if (act < 12) { say(fmt("destroy%d", i)); delete o[i]; typ[i] = newgeo(); o[i] = make_queue(geos[typ[i]].t, r.chance(1, 2) ? (i % 2 ? 1 : 2) : 0); at[i] = -1; ev("objects destroyed"); }
        else if (act < 16)
        {
            if (at[i] >= 0)
            {
                File &U = f[at[i]]; Dog d(log.c_str());
                if (r.chance(1, 4)) { uint8_t x = (uint8_t) r.below(12); say(fmt("register%d", i)); o[i]->set_register(x, U.reg[x] = (uint32_t) r.next()); }
                else if (i % 2 == 0)
                {
                    say(fmt("flush%d", i)); Box b = fill(o[i], G, id++ % 20000); long fail = r.chance(1, 6) ? 1 + (long) r.below(3) : 0; bool threw = false; const char *failed;
                    { Sys s(fail, errs[r.below(7)]); try { o[i]->flush(); } catch (const std::exception &e) { threw = true; } failed = s.failed(); }
                    CHECK(!threw || failed, "flush-fails", "a flush raises an exception (%s)", log.c_str());
                    if (U.q.size() + 1 < G.n)
                    {
                        // a refused flush has its box in the ring or not
                        if (!failed || o[i]->boxes() != (long) U.q.size()) U.q.push_back(b);
                    }
                    if (failed) { say("(failed)"); ev("flushes with a failing call"); o[i]->disconnect(); at[i] = -1; }
                }
                else
                {
                    say(fmt("take%d", i)); long fail = r.chance(1, 6) ? 1 + (long) r.below(3) : 0; bool threw = false, g = false; const char *failed;
                    { Sys s(fail, errs[r.below(7)]); try { g = o[i]->unflush(IPC_NOWAIT, 1000); } catch (const std::exception &e) { threw = true; } failed = s.failed(); }
                    CHECK(failed || (!threw && g == !U.q.empty()), "box-lost", "taking a box returns %d with %zu unread (%s)", g, U.q.size(), log.c_str());
                    if (g) { Box b = empty_box(o[i], log.c_str()); CHECK(!U.q.empty() && b == U.q[0], "box-wrong", "a box arrives with other records (%s)", log.c_str()); U.q.erase(U.q.begin()); }
                    if (failed) { say("(failed)"); ev("takes with a failing call"); }
                }
                ev("operations between connections");
            }
        }
        else if (F.geo >= 0)
        {
            unsigned how = (unsigned) r.below(3); const Geo &g = geos[F.geo]; say(fmt("process%u->%d", how, k)); std::vector<pid_t> kids;
            bool fits = F.q.size() + 1 < g.n; uint64_t me = id++ % 20000; Box b;
            pid_t p = spawn();
            if (!p)
            {
                IQueue *m = make_queue(g.t);
                { Dog d(log.c_str()); try { m->connect(F.key.c(), g.bs, g.n); } catch (const std::exception &e) { violation("connect-fails", "another process cannot connect: %s (%s)", e.what(), log.c_str()); } }
                check_queue(m, F, false, "in another process");
                { Dog d(log.c_str()); fill(m, g, me); m->flush(); }
                if (how == 0) m->disconnect();
                if (how == 2) raise(SIGKILL);
                _exit(0);
            }
            kids.push_back(p); std::set<size_t> may; if (how == 2) may.insert(0);
            settle(join(kids, 30, may, log.c_str()), "another process");
            if (fits) { IQueue *x = make_queue(g.t); size_t sz = x->rec(20), pos = 0; for (uint64_t c = 0; c < 4 && pos + sz <= g.bs && (c == 0 || (me * 7 + c) % 3); ++c, pos += sz) b.push_back(x->cutid(me * 4 + c)); delete x; F.q.push_back(b); }
            ev("other processes connected");
        }
        for (int x = 0; x < 2; ++x)
        {
            long c = 0; for (int y = 0; y < OBJ; ++y) c += at[y] == x; long a = f[x].key.attached();
            CHECK(a == c, a > c ? "mapping-kept" : "mapping-lost", "%ld mappings of the segment for %ld connected objects (%s)", a, c, log.c_str());
            if (f[x].geo >= 0) { for (int y = 0; y < OBJ; ++y) if (at[y] == x) { check_queue(o[y], f[x], false, log.c_str()); break; } if (r.chance(1, 4)) newcomer(x, false); }
        }
    }
    for (int i = 0; i < OBJ; ++i) delete o[i];
    for (int k = 0; k < 2; ++k)
    {
        CHECK(f[k].key.attached() == 0, "mapping-kept", "mappings are left after all objects are gone (%s)", log.c_str());
        if (f[k].geo >= 0) newcomer(k, true);
    }
    evaluated(1); distinct(h); ev("orders of connections");
    if (want_sample()) sample("%s", S(log));
}

// ---- one process stands still at every point of an operation -----------------------------------------------------------------
struct Shm
{
    std::atomic<int> ready, go, paused, resume, adone, bdone, bgot, held, stop, left, connected; std::atomic<uint64_t> n, m;
    std::atomic<uint64_t> prog[8], doing[8], killed; std::atomic<uint32_t> seen[8][6000]; std::atomic<uint64_t> taken;
};
static Shm *sh;
static int lock_sem = 0;       // the semaphore that is held during an operation
struct Stop { long at, n; };
static void stop_hook(void *a, const char *, int)
{ Stop *s = (Stop *) a; if (++s->n == s->at) { sh->held = vp_held[lock_sem] != 0; sh->paused = 1; while (!sh->resume.load()) usleep(30); } }
static void find_hook(void *, const char *, int) { for (int i = 0; i < 8; ++i) if (vp_held[i]) lock_sem = i; }
static bool wait_flag(std::atomic<int> &f, double s) { double a = now(); while (!f.load()) { if (now() - a > s) return false; usleep(20); } return true; }
static void find_lock()
{
    Key key("queue"); IQueue *q = make_queue(0); q->connect(key.c(), 18, 4);
    { Sys s; vp_sys.hook = find_hook; q->set_register(0, 1); } delete q;
}
enum { S_FLUSH, S_TAKE, S_SET, S_GET, S_FIRST, S_CONNECT, S_KINDS };
static const char *const skinds[] = { "a flush", "taking a box", "setting a register", "reading a register", "the first connect", "a connect" };

static bool standing(Rng &r, int a_op, int b_op, long at, bool sigs, const Geo &g)
{
    Key key("queue"); new (sh) Shm(); std::vector<Box> q; bool first = a_op == S_FIRST; uint64_t id = 1; IQueue *w = 0, *rd = 0;
    string what = fmt("a process stands still at point %ld of %s", at, skinds[a_op]);
    auto conn = [&] { IQueue *x = make_queue(g.t); x->connect(key.c(), g.bs, g.n); return x; };
    if (!first)
    {
        w = conn(); rd = conn(); unsigned rot = (unsigned) r.below(g.n), have = 2 + (unsigned) r.below(g.n > 4 ? g.n - 4 : 1); if (have + 2 > g.n) have = 1;
        for (unsigned i = 0; i < rot; ++i) { fill(w, g, id++); w->flush(); rd->unflush(0, 100000); }
        for (unsigned i = 0; i < have; ++i) { q.push_back(fill(w, g, id++)); w->flush(); }
    }
    std::vector<pid_t> kids; uint64_t ida = 900, idb = 901; Box xa, xb;
    { IQueue *x = conn(); if (first) { delete x; key.drop(); } else { delete x; } }
    pid_t a = spawn();
    if (!a)
    {
        IQueue *m = first || a_op == S_CONNECT ? make_queue(g.t) : conn(); Stop st = { at, 0 }; bool got = true; if (a_op == S_FLUSH) fill(m, g, ida);
        try
        {
            Sys s; vp_sys.hook = stop_hook; vp_sys.arg = &st;
            switch (a_op) { case S_FLUSH: m->flush(); break; case S_TAKE: got = m->unflush(0, 20000000); break; case S_SET: m->set_register(3, 33); break; case S_GET: m->get_register(3); break; default: m->connect(key.c(), g.bs, g.n); }
        } catch (const std::exception &e) { violation("operation-fails", "%s: it fails: %s", what.c_str(), e.what()); }
        CHECK(got, "take-fails", "%s: it fails though boxes are there", what.c_str());
        sh->adone = 1; wait_flag(sh->go, 60);
        if (a_op == S_TAKE) { Box b = empty_box(m, what.c_str()); sh->n = b.empty() ? 0 : b[0]; }
        if (a_op >= S_FIRST) { fill(m, g, ida); m->flush(); }
        _exit(0);
    }
    kids.push_back(a);
    { double t0 = now(); while (!sh->paused.load() && !sh->adone.load()) { HCHECK(now() - t0 < 20, "no pause"); usleep(20); } }
    if (!sh->paused.load()) { sh->go = 1; settle(join(kids, 20, std::set<size_t>(), what.c_str()), what.c_str()); delete w; delete rd; return false; }
    bool held = sh->held.load();
    pid_t b = spawn();
    if (!b)
    {
        IQueue *m = make_queue(g.t); bool got = true, con = first || b_op >= S_FIRST;
        sh->ready = 1;
        try
        {
            if (con) m->connect(key.c(), g.bs, g.n);
            else
            {
                // leave out the lock of connecting
                delete m; m = b_op == S_TAKE ? rd : w;
                if (b_op == S_FLUSH) { Box x = fill(m, g, idb); m->flush(); }
                else if (b_op == S_TAKE) { while (!(got = m->unflush(0, 5000000)) && !sh->stop.load()) ; }
                else if (b_op == S_SET) m->set_register(4, 44); else m->get_register(4);
            }
        } catch (const std::exception &e) { violation("operation-fails", "%s: %s of another fails: %s", what.c_str(), skinds[b_op], e.what()); }
        sh->bdone = 1;
        if (b_op == S_TAKE && !con) { Box x = empty_box(m, what.c_str()); sh->m = x.empty() ? 0 : x[0]; }
        if (con) { fill(m, g, idb); m->flush(); }
        sh->bgot = 1; wait_flag(sh->go, 60); _exit(0);
    }
    kids.push_back(b); wait_flag(sh->ready, 10);
    double t0 = now(); while (now() - t0 < (held ? 0.006 : 0.001)) { if (sigs) kill(b, SIGUSR1); usleep(sigs ? 40 : 200); }
    if (held) { CHECK(!sh->bdone.load(), "lock-lost", "%s and holds the lock, but %s of another is done%s", what.c_str(), skinds[b_op], sigs ? " under signals" : ""); ev("standing still with the lock"); }
    else ev("standing still without the lock");
    if (!held && !wait_flag(sh->bdone, 15)) { for (pid_t k : kids) kill(k, SIGKILL); violation("blocked", "%s without the lock, and %s of another does not end", what.c_str(), skinds[b_op]); }
    sh->resume = 1; bool ok = true; t0 = now();
    while (now() - t0 < 15 && !(ok = sh->adone.load() && sh->bgot.load())) usleep(50);
    if (!ok) { siginfo_t si; si.si_pid = 0; bool died = waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid; if (!died) { for (pid_t k : kids) kill(k, SIGKILL); violation("blocked", "%s: after it goes on, %s does not end", what.c_str(), sh->adone.load() ? skinds[b_op] : skinds[a_op]); } }
    sh->go = 1; settle(join(kids, 20, std::set<size_t>(), what.c_str()), what.c_str());
    // all is as if one had come after the other
    IQueue *x = conn(); Dog d(what.c_str()); std::multiset<Box> left; std::vector<Box> inorder; { IQueue *y = make_queue(g.t); y->connect(key.c(), g.bs, g.n); long c = y->boxes(); while (y->unflush(IPC_NOWAIT, 1000)) inorder.push_back(empty_box(y, what.c_str())); CHECK((long) inorder.size() == c, "box-count", "%s: afterwards %ld boxes are reported, %zu arrive", what.c_str(), c, inorder.size()); delete y; }
    auto ids = [&](uint64_t me) { Box v; size_t pos = 0, sz = x->rec(20); for (uint64_t c = 0; c < 4 && pos + sz <= g.bs && (c == 0 || (me * 7 + c) % 3); ++c, pos += sz) v.push_back(x->cutid(me * 4 + c)); return v; };
    bool pa = a_op == S_FLUSH || a_op >= S_FIRST, pb = b_op == S_FLUSH || first || b_op >= S_FIRST, ta = a_op == S_TAKE, tb = b_op == S_TAKE && !first;
    std::vector<Box> exp = q; std::set<uint64_t> took, should;
    if (ta) { took.insert(sh->n.load()); should.insert(exp[0][0]); exp.erase(exp.begin()); }
    if (tb) { took.insert(sh->m.load()); should.insert(exp.empty() ? 0 : exp[0][0]); if (!exp.empty()) exp.erase(exp.begin()); }
    CHECK(took == should, "box-wrong", "%s, another is at %s: other boxes than the first are taken", what.c_str(), skinds[b_op]);
    std::vector<Box> e1 = exp, e2 = exp; if (pa) { e1.push_back(ids(ida)); } if (pb) { e1.push_back(ids(idb)); e2.push_back(ids(idb)); } if (pa) e2.push_back(ids(ida));
    if (e1.size() > g.n - 1) e1.resize(g.n - 1);
    if (e2.size() > g.n - 1) e2.resize(g.n - 1);
    CHECK(inorder == e1 || inorder == e2, "box-wrong", "%s, another is at %s: afterwards the boxes are %s, not %s", what.c_str(), skinds[b_op], show(inorder).c_str(), show(e1).c_str());
    if (a_op == S_SET) CHECK(x->get_register(3) == 33, "register", "%s: its register is not set", what.c_str());
    if (b_op == S_SET && !first) CHECK(x->get_register(4) == 44, "register", "%s: the register of another is not set", what.c_str());
    delete x; delete w; delete rd;
    evaluated(1); distinct(mix(mix((uint64_t) a_op, (uint64_t) b_op), mix((uint64_t) at, mix(sigs, g.bs)))); ev("points of standing still");
    if (want_sample()) sample("%s (%s lock), another: %s%s", what.c_str(), held ? "with the" : "without", skinds[b_op], sigs ? " under signals" : "");
    return true;
}

// ---- deaths at chosen instructions -------------------------------------------------------------------------------------------
enum { K_FLUSH, K_TAKE, K_PUT, K_TAKE_EMPTY, K_FLUSH_FULL, K_SET, K_GETREG, K_CONNECT, K_GET, K_DISCONNECT, K_FIRST, K_KINDS };
static const char *const kkinds[] = { "flush", "taking a box", "put into a full box", "taking a box from an empty queue", "flush on a full ring", "setting a register", "reading a register", "connect", "get", "disconnect", "the first connect and flush" };
struct Prep
{
    Key key; Geo g; int kind; IQueue *w, *r, *w2, *r2; std::vector<Box> q; Box mine; uint64_t id; uint8_t *seg; size_t bytes;
    Prep(): key("queue"), w(0), r(0), w2(0), r2(0), id(1), seg(0), bytes(0) {}
    ~Prep() { if (seg) __real_shmdt(seg); delete w; delete r; delete w2; delete r2; }
    IQueue *conn(const char *what)
    {
        IQueue *x = make_queue(g.t); Dog d(what, "lock-kept");
        try { x->connect(key.c(), g.bs, g.n); } catch (const std::exception &e) { violation("connect-fails", "%s: connecting fails: %s", what, e.what()); }
        return x;
    }
};
static void prepare(Prep &P, uint64_t seed, int kind)
{
    Rng r(seed); static const Geo gs[] = { { 0, 18, 4 }, { 0, 9, 2 }, { 2, 100, 3 }, { 4, 200, 6 }, { 1, 3, 5 }, { 3, 300, 2 } };
    P.g = gs[r.below(6)]; P.kind = kind; bool big = opt.num("big", 0) != 0;
    if (big) { static const Geo bg = { 0, 9, 32790 }; P.g = bg; }      // more boxes than a semaphore counts
    if (kind == K_FIRST) return;
    P.w = P.conn("preparing"); P.r = P.conn("preparing"); P.w2 = P.conn("preparing"); P.r2 = P.conn("preparing");
    unsigned rot = (unsigned) r.below(2 * P.g.n), have = (unsigned) r.below(P.g.n);
    if (big) { rot = (unsigned) r.below(40); have = 32764 + (unsigned) r.below(8); }
    if (kind == K_TAKE && !have) have = 1;
    if (kind == K_TAKE_EMPTY) have = 0;
    if (kind == K_FLUSH_FULL) have = P.g.n - 1;
    if ((kind == K_FLUSH || kind == K_PUT) && have == P.g.n - 1 && r.chance(3, 4)) --have;
    for (unsigned i = 0; i < rot; ++i) { fill(P.w, P.g, P.id++); P.w->flush(); HCHECK(P.r->unflush(0, 100000), "preparing"); }
    for (unsigned i = 0; i < have; ++i) { P.q.push_back(fill(P.w, P.g, P.id++)); P.w->flush(); }
    for (int i = 0; i < 12; ++i) P.w->set_register((uint8_t) i, 100 + (uint32_t) i);
    if (kind == K_FLUSH || kind == K_FLUSH_FULL) P.mine = fill(P.w, P.g, P.id++);
    if (kind == K_PUT) for (size_t pos = 0, sz = P.w->rec(20); pos + sz <= P.g.bs; pos += sz) { uint64_t x = P.w->cutid(P.id++ * 4); HCHECK(P.w->put(x, 20), "put"); P.mine.push_back(x); }
    if (kind == K_GET && !P.q.empty()) { HCHECK(P.r->unflush(0, 100000), "preparing"); P.q.erase(P.q.begin()); }
    struct shmid_ds d; HCHECK(shmctl(P.w->shmid(), IPC_STAT, &d) == 0, "stat"); P.bytes = d.shm_segsz;
    P.seg = (uint8_t *) __real_shmat(P.w->shmid(), 0, 0); HCHECK(P.seg != (uint8_t *) -1, "attach");
}
static void act(Prep &P)
{
    Got g;
    switch (P.kind)
    {
    case K_FLUSH: case K_FLUSH_FULL: P.w->flush(); break;
    case K_TAKE: case K_TAKE_EMPTY: P.r->unflush(IPC_NOWAIT, 1000); break;
    case K_PUT: P.w->put(P.w->cutid(P.id * 4), 20); break;
    case K_SET: P.w->set_register(5, 555); break;
    case K_GETREG: P.w->get_register(5); break;
    case K_GET: P.r->get(g); break;
    case K_DISCONNECT: P.w->disconnect(); break;
    case K_CONNECT: { IQueue *x = make_queue(P.g.t); x->connect(P.key.c(), P.g.bs, P.g.n); break; }
    default: P.w = make_queue(P.g.t); P.w->connect(P.key.c(), P.g.bs, P.g.n); fill(P.w, P.g, 77); P.w->flush();
    }
}
static bool step(pid_t p, int &st)
{
    HCHECK(ptrace(PTRACE_SINGLESTEP, p, 0, 0) == 0, "single step: %s", strerror(errno));
    HCHECK(waitpid(p, &st, 0) == p, "wait for step");
    return WIFSTOPPED(st);
}
static pid_t victim(Prep &P)
{
    fflush(0); pid_t p = fork(); HCHECK(p >= 0, "fork");
    if (!p)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(0);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(79);
        raise(SIGSTOP);
        try { act(P); } catch (...) { _exit(3); }
        _exit(0);
    }
    int st; HCHECK(waitpid(p, &st, 0) == p && WIFSTOPPED(st), "victim did not stop");
    return p;
}

// what survivors find: the old list, or the list with the one box moved; then a queue as good as new
static void survive(Prep &P, Rng &r, std::vector<Box> got, const string &what)
{
    IQueue *w = r.chance(1, 2) && P.w2 ? P.w2 : P.conn(what.c_str()), *rd = r.chance(1, 2) && P.r2 ? P.r2 : P.conn(what.c_str());
    Dog dog(what.c_str(), "lock-kept"); uint32_t n = P.g.n; uint64_t id = 500;
    std::vector<std::vector<Box> > may(1, P.q);
    if (P.kind == K_FLUSH || P.kind == K_PUT || P.kind == K_FIRST) { if (P.q.size() + 1 < n) { may.push_back(P.q); may.back().push_back(P.mine); } }
    if (P.kind == K_TAKE) may.push_back(std::vector<Box>(P.q.begin() + 1, P.q.end()));
    long c = rd->boxes(), lo = 1000000, hi = 0; for (auto &m : may) { lo = std::min(lo, (long) m.size()); hi = std::max(hi, (long) m.size()); }
    lo -= (long) got.size(); hi -= (long) got.size();
    CHECK(c >= lo && c <= hi, "box-count", "%s: %ld boxes are reported, %ld to %ld can be there", what.c_str(), c, lo, hi);
    for (int i = 0; i < 12 && P.kind != K_FIRST; ++i) { uint32_t v = w->get_register((uint8_t) i); CHECK(v == 100u + (uint32_t) i || (P.kind == K_SET && i == 5 && v == 555), "register", "%s: register %d holds %u", what.c_str(), i, v); }
    unsigned extra = (unsigned) r.below(4) ? 0 : 1 + (unsigned) r.below(n + 1); std::vector<Box> added;
    for (unsigned i = 0; i < extra; ++i) { added.push_back(fill(w, P.g, id++)); w->flush(); }
    auto drain = [&](std::vector<Box> &v) { int no = 0; while (no < 2) { if (rd->unflush(r.chance(1, 2) ? IPC_NOWAIT : 0, 300)) { v.push_back(empty_box(rd, what.c_str())); no = 0; HCHECK(v.size() < 10000 + n, "endless"); } else ++no; } };
    size_t before = got.size(); drain(got); bool ok = false; std::vector<Box> want;
    for (auto m : may) { for (auto &b : added) if (m.size() - before + 1 < n) m.push_back(b); want = m; ok |= got == m; }
    CHECK(ok, "ring-disturbed", "%s: the boxes that arrive are %s, not %s with or without its own box%s", what.c_str(), show(got).c_str(), show(want).c_str(), extra ? " and the ones added" : "");
    CHECK(rd->boxes() == 0, "box-count", "%s: %ld boxes are reported after all are taken", what.c_str(), rd->boxes());
    for (int round = 0; round < (n > 10000 ? 1 : 3); ++round)
    {
        std::vector<Box> in, out; unsigned k = round == 1 ? 1 + (unsigned) r.below(n) : n - 1;
        for (unsigned i = 0; i < k; ++i) { Box b = fill(w, P.g, id++); w->flush(); if (in.size() + 1 < n) in.push_back(b); CHECK(rd->boxes() == (long) in.size(), "box-count", "%s: later %ld boxes are reported, %zu are unread", what.c_str(), rd->boxes(), in.size()); }
        for (size_t i = 0; i < in.size(); ++i) { CHECK(rd->unflush(0, 1000000), "box-lost", "%s: later a box does not arrive", what.c_str()); out.push_back(empty_box(rd, what.c_str())); }
        CHECK(in == out, "ring-disturbed", "%s: later boxes %s arrive as %s", what.c_str(), show(in).c_str(), show(out).c_str());
        CHECK(!rd->unflush(IPC_NOWAIT, 0), "box-from-nowhere", "%s: later a box too many arrives", what.c_str());
    }
    for (int i = 0; i < 12; ++i) { w->set_register((uint8_t) i, (uint32_t) i); CHECK(rd->get_register((uint8_t) i) == (uint32_t) i, "register", "%s: later a register is not kept", what.c_str()); }
    if (w != P.w2) delete w;
    if (rd != P.r2) delete rd;
}

static void stepped(Rng &r, int kind)
{
    uint64_t seed = r.next(); std::vector<long> at; long total = 0; int st; string base;
    {
        Prep P; prepare(P, seed, kind); if (kind == K_FIRST) { IQueue *x = make_queue(P.g.t); base = ""; delete x; }
        base = fmt("inside %s (%u boxes of %u bytes, %zu unread)", kkinds[kind], P.g.n, P.g.bs, P.q.size());
        pid_t v = victim(P); std::vector<uint8_t> last; uint8_t *seg = P.seg; size_t bytes = P.bytes; long semlast = -1, sems = -1;
        if (seg) last.assign(seg, seg + bytes);
        while (step(v, st))
        {
            ++total; HCHECK(total < 600000, "endless operation"); int sg = WSTOPSIG(st);
            if (sg != SIGTRAP && sg != SIGSTOP) { kill(v, SIGKILL); waitpid(v, &st, 0); violation("crash", "%s: signal %d", base.c_str(), sg); }
            int s = P.key.sem(); if (s >= 0) { unsigned short val[8] = { 0 }; __real_semctl(s, 0, GETALL, (long) val); sems = val[0] * 70000l + val[1]; }
            if (sems != semlast) { at.push_back(total); semlast = sems; }
            if (!seg && P.key.shm() >= 0) { at.push_back(total); struct shmid_ds d; shmctl(P.key.shm(), IPC_STAT, &d); bytes = d.shm_segsz; seg = (uint8_t *) __real_shmat(P.key.shm(), 0, 0); last.assign(bytes, 0); }
            if (seg && memcmp(last.data(), seg, bytes)) { at.push_back(total); last.assign(seg, seg + bytes); }
        }
        HCHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "victim status %x", st);
        if (!P.seg && seg) __real_shmdt(seg);
        ev("instructions stepped", (uint64_t) total);
    }
    std::set<long> points; for (long a : at) { points.insert(a - 1); points.insert(a); if (r.chance(1, 3)) points.insert(a + (long) r.below(6)); }
    for (int i = 0; i < 3; ++i) points.insert((long) r.below((uint64_t) total + 1));
    if (opt.num("big", 0)) { std::vector<long> v; for (long a : at) { for (long x : { a - 1, a }) v.push_back(x); } points.clear(); while (points.size() < 6 && points.size() < v.size()) points.insert(v[r.below(v.size())]); }
    if (points.size() > 45) { std::vector<long> v(points.begin(), points.end()); points.clear(); while (points.size() < 45) points.insert(v[r.below(v.size())]); }
    for (long n : points)
    {
        if (n < 0 || n > total) continue;
        Prep P; prepare(P, seed, kind); if (kind == K_FIRST) { IQueue *x = make_queue(P.g.t); size_t pos = 0, sz = x->rec(20); for (uint64_t c = 0; c < 4 && pos + sz <= P.g.bs && (c == 0 || (77 * 7 + c) % 3); ++c, pos += sz) P.mine.push_back(x->cutid(77 * 4 + c)); delete x; }
        pid_t v = victim(P); bool alive = true; for (long i = 0; i < n && alive; ++i) alive = step(v, st);
        if (!alive) continue;
        string what = fmt("killed after %ld of %ld instructions ", n, total) + base;
        std::vector<pid_t> kids; unsigned wait = kind == K_FIRST || kind == K_DISCONNECT ? 0 : (unsigned) r.below(4); new (sh) Shm(); std::vector<Box> got;
        if (wait == 1) { pid_t k = spawn(); if (!k) { alarm(0); P.w2->get_register(1); P.w2->set_register(1, 101); _exit(0); } kids.push_back(k); usleep(200); }
        if (wait == 2 && (P.q.empty() || r.chance(1, 3)))
        {
            pid_t k = spawn();
            if (!k) { alarm(0); sh->ready = 1; if (P.r2->unflush(0, 30000)) { Box b = empty_box(P.r2, what.c_str()); sh->n = b.size(); for (size_t i = 0; i < b.size(); ++i) sh->prog[i] = b[i]; sh->connected = 1; } _exit(0); }
            kids.push_back(k); wait_flag(sh->ready, 5); usleep(100);
        }
        kill(v, SIGKILL); HCHECK(waitpid(v, &st, 0) == v, "wait");
        bool waited = !kids.empty();
        if (waited) { settle(join(kids, 15, std::set<size_t>(), what.c_str()), what.c_str()); ev(wait == 1 ? "deaths with another waiting for the lock" : "deaths with another waiting for a box"); }
        if (sh->connected.load()) { Box b; for (uint64_t i = 0; i < sh->n.load(); ++i) b.push_back(sh->prog[i].load()); got.push_back(b); }
        if (kind == K_FIRST && r.chance(1, 5))
        {
            // one of another geometry comes first: refused, or it has the queue for itself
            Geo o = P.g; o.n += 1; o.bs = o.bs > 20 ? o.bs / 2 : o.bs; IQueue *x = make_queue(0); bool won = true; Dog d(what.c_str(), "lock-kept");
            try { x->connect(P.key.c(), 9, 2); } catch (const std::exception &e) { won = P.g.bs == 9 && P.g.n == 2; }
            bool same = P.g.bs == 9 && P.g.n == 2; delete x;
            if (won && !same) { bool threw = false; IQueue *y = make_queue(P.g.t); try { y->connect(P.key.c(), P.g.bs, P.g.n); } catch (const std::exception &e) { threw = true; } delete y; CHECK(threw, "mismatch-accepted", "%s: two geometries are accepted", what.c_str()); evaluated(1); continue; }
        }
        survive(P, r, got, what);
        evaluated(1); distinct(mix(mix(seed, (uint64_t) n), (uint64_t) kind)); ev("deaths at chosen instructions");
    }
    ev(kkinds[kind]);
    if (want_sample()) sample("%ld instructions, %zu changes, %zu deaths %s", total, at.size(), points.size(), base.c_str());
}

// ---- deaths and signals at full speed ----------------------------------------------------------------------------------------
static void storm(Rng &r, bool deaths)
{
    Key key("queue"); new (sh) Shm(); int W = 1 + (int) r.below(3), R = 1 + (int) r.below(3), P = W + R; Geo g = { 4, 64 + (uint32_t) r.below(r.chance(1, 3) ? 60000 : 2000), 3 + 2 * (uint32_t) W + (uint32_t) r.below(r.chance(1, 2) ? 3 : 40) };
    bool sigs = !deaths || r.chance(1, 3); int nbox = 40 + (int) r.below(200); int delay = r.chance(1, 2) ? 0 : 1 + (int) r.below(60);
    std::vector<uint64_t> seeds; for (int i = 0; i < 64; ++i) seeds.push_back(r.next());
    IQueue *mon = make_queue(g.t); { Dog d("connecting"); mon->connect(key.c(), g.bs, g.n); }
    uint32_t n1 = g.bs / 2 > 1100 ? 1000 : g.bs / 2;      // bytes of a record: boxes are filled with records of this size
    // writers keep away from a full ring: at most so many boxes wait
    sh->left = W;
    std::vector<pid_t> kids; std::vector<int> role;
    auto start = [&](int i, int gen) {
        pid_t k = spawn(); if (k) return k;
        Rng q(seeds[(size_t) ((gen * P + i) % 64)]); IQueue *m = make_queue(g.t, i < W ? 2 : 1);
        try { m->connect(key.c(), g.bs, g.n); } catch (const std::exception &e) { violation("connect-fails", "connecting beside %s fails: %s", deaths ? "dying processes" : "signals", e.what()); }
        sh->ready.fetch_add(1); while (!sh->go.load()) usleep(10);
        Sys s; vp_sys.rng = &q; vp_sys.delay = delay; size_t sz = m->rec(n1); unsigned per = (unsigned) (g.bs / sz); if (per > 200) per = 200;
        if (i < W)
        {
            while (sh->prog[i].load() < (uint64_t) nbox)
            {
                uint64_t b = sh->prog[i].load() + 1;
                if (gen) { b = sh->doing[i].load() + 1; }
                unsigned k2 = 1 + (unsigned) q.below(per);
                for (unsigned j = 0; j < k2; ++j) CHECK(m->put((uint64_t) i << 56 | b << 32 | (uint64_t) k2 << 16 | j, n1), "put-refused", "a fitting record is refused");
                while (m->boxes() > (long) g.n - 2 - 2 * W) { if (sh->stop.load() > 1) _exit(0); usleep(30); }
                sh->doing[i] = b;
                m->flush();
                sh->seen[i][b].fetch_or(1u << 16);       // its flush is over
                sh->prog[i] = b; sh->n.fetch_add(1);
            }
            sh->left.fetch_sub(1);
        }
        else for (;;)
        {
            int lf = sh->left.load(); bool g2 = m->unflush(q.chance(1, 2) ? IPC_NOWAIT : 0, q.chance(1, 2) ? 20000 : 300);
            if (!g2) { if ((lf <= 0 || sh->stop.load()) && m->boxes() == 0) break; continue; }
            Got z; uint32_t seen = 0, wi = 0, b = 0, n = 0; bool first = true;
            while (m->get(z))
            {
                CHECK(z.whole, "box-damaged", "a record arrives damaged beside %s", deaths ? "dying processes" : "signals");
                uint32_t cw = (uint32_t) (z.id >> 56), cb = (uint32_t) (z.id >> 32) & 0xffffff, cn = (uint32_t) (z.id >> 16) & 0xffff, cj = (uint32_t) z.id & 0xffff;
                if (first) { wi = cw; b = cb; n = cn; first = false; }
                CHECK(cw == wi && cb == b && cn == n && cj == seen, "box-damaged", "a box is mixed from several (beside %s)", deaths ? "dying processes" : "signals");
                ++seen;
            }
            CHECK(!first && seen == n, "box-damaged", "a box of %u records arrives with %u (beside %s)", n, seen, deaths ? "dying processes" : "signals");
            HCHECK(wi < 8 && b < 6000, "box number");
            uint32_t before = sh->seen[wi][b].fetch_add(1) & 0xffff; CHECK(before == 0, "box-twice", "a box is delivered twice beside %s", deaths ? "dying processes" : "signals");
            sh->m.fetch_add(1);
        }
        _exit(0);
    };
    for (int i = 0; i < P; ++i) { kids.push_back(start(i, 0)); role.push_back(i); }
    while (sh->ready.load() < P) usleep(20);
    sh->go = 1;
    int kills_w = 0, kills_r = 0, gen = 0; std::vector<pid_t> all = kids; std::set<size_t> dead; double t0 = now(); bool broke = false;
    int planned = deaths ? 1 + (int) r.below(5) : 0;
    while (sh->left.load() > 0 && !broke)
    {
        siginfo_t si; si.si_pid = 0; if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid && (si.si_code == CLD_EXITED ? si.si_status != 0 : false)) break;
        if (sigs) for (int x = 0; x < 4; ++x) { size_t k = r.below(all.size()); if (!dead.count(k)) kill(all[k], SIGUSR1); }
        if (planned && r.chance(1, 4))
        {
            size_t k = r.below(all.size());
            if (!dead.count(k))
            {
                int i = role[k]; int st;
                if (waitpid(all[k], &st, WNOHANG | 0) == 0)
                {
                    kill(all[k], SIGKILL); HCHECK(waitpid(all[k], &st, 0) == all[k], "wait"); dead.insert(k); --planned;
                    if (WIFSIGNALED(st))
                    {
                        if (i < W) ++kills_w; else ++kills_r;
                        ++gen; all.push_back(start(i, gen)); role.push_back(i);
                    }
                    else { if (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79) { save_stats(); _exit(WEXITSTATUS(st)); } }
                }
                else { dead.insert(k); if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 79)) { save_stats(); _exit(WEXITSTATUS(st)); } }
            }
        }
        usleep((useconds_t) r.below(sigs ? 150 : 400));
        static uint64_t lastn, lastm; uint64_t cn = sh->n.load(), cm = sh->m.load(); if (cn != lastn || cm != lastm) { lastn = cn; lastm = cm; t0 = now(); }
        if (now() - t0 > 20) { for (size_t k = 0; k < all.size(); ++k) if (!dead.count(k)) kill(all[k], SIGKILL); violation("blocked", "beside %s (%d deaths) nobody goes on (%d writers, %d readers)", deaths ? "dying processes" : "signals", kills_w + kills_r, W, R); }
    }
    sh->stop = 1; kids.clear(); for (size_t k = 0; k < all.size(); ++k) if (!dead.count(k)) kids.push_back(all[k]);
    settle(join(kids, 30, std::set<size_t>(), "the end of a storm"), "a process in a storm");
    string what = fmt("%d writers, %d readers, %u boxes of %u bytes, %d writers and %d readers killed", W, R, g.n, g.bs, kills_w, kills_r);
    { Dog d(what.c_str(), "lock-kept"); while (mon->unflush(IPC_NOWAIT, 0)) violation("box-late", "%s: a box is left after the readers found none", what.c_str()); CHECK(mon->boxes() == 0, "box-count", "%s: %ld boxes are reported in the end", what.c_str(), mon->boxes()); }
    int lost = 0, unsure = 0; uint64_t h = mix((uint64_t) W, (uint64_t) R);
    for (int i = 0; i < W; ++i) for (uint64_t b = 1; b <= sh->doing[i].load(); ++b)
    {
        uint32_t v = sh->seen[i][b].load(); bool flushed = v >> 16, del = v & 0xffff;
        if (flushed && !del) ++lost;
        if (!flushed) ++unsure;
        h = mix(h, v);
    }
    CHECK(lost <= kills_r, "box-lost", "%s: %d flushed boxes are lost", what.c_str(), lost);
    CHECK(unsure <= kills_w, "box-lost", "%s: %d flushes never ended", what.c_str(), unsure);
    { Dog d(what.c_str(), "lock-kept"); IQueue *w = make_queue(g.t); w->connect(key.c(), g.bs, g.n); for (unsigned k = 0; k < g.n - 1; ++k) { w->put(k + 1, 20); w->flush(); } for (unsigned k = 0; k < g.n - 1; ++k) { CHECK(mon->unflush(0, 1000000), "box-lost", "%s: afterwards the ring holds %u boxes only", what.c_str(), k); Got z; CHECK(mon->get(z) && z.whole && z.id == k + 1, "ring-disturbed", "%s: afterwards boxes come in another order", what.c_str()); } CHECK(!mon->unflush(IPC_NOWAIT, 0), "box-from-nowhere", "%s: afterwards there is a box too many", what.c_str()); delete w; }
    delete mon;
    evaluated(1); distinct(h); ev(deaths ? "storms with deaths" : "storms of signals"); ev("deaths at full speed", (uint64_t) (kills_w + kills_r)); ev("boxes flushed in storms", sh->n.load()); ev("boxes taken in storms", sh->m.load()); ev("boxes lost with a reader", (uint64_t) lost);
    if (want_sample()) sample("%s: %llu flushed, %llu taken", what.c_str(), (unsigned long long) sh->n.load(), (unsigned long long) sh->m.load());
}

// ---- all connect for the first time at once ----------------------------------------------------------------------------------
static void crowd(Rng &r)
{
    Key key("queue"); new (sh) Shm(); int procs = 2 + (int) r.below(6), delay = r.chance(1, 5) ? 0 : 1 + (int) r.below(200); bool rivals = r.chance(1, 3);
    Geo g = { 4, 100 + (uint32_t) r.below(300), 64 }, o = { 4, 200, 80 + (uint32_t) r.below(40) }; std::vector<uint64_t> seeds; for (int p = 0; p < procs; ++p) seeds.push_back(r.next());
    std::vector<pid_t> kids; int each = 1 + (int) r.below(4);
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = spawn();
        if (!k)
        {
            Rng q(seeds[(size_t) p]); bool odd = rivals && q.chance(1, 2); IQueue *m = make_queue(g.t); bool threw = false; string why;
            sh->ready.fetch_add(1); while (!sh->go.load()) ;
            if (q.chance(1, 3)) usleep((useconds_t) q.below((uint64_t) delay * 3 + 1));
            try { Sys s; vp_sys.rng = &q; vp_sys.delay = delay; m->connect(key.c(), odd ? o.bs : g.bs, odd ? o.n : g.n); } catch (const std::exception &e) { threw = true; why = e.what(); }
            if (threw && rivals)
            {
                odd = !odd; threw = false;
                try { m->connect(key.c(), odd ? o.bs : g.bs, odd ? o.n : g.n); } catch (const std::exception &e) { threw = true; why = e.what(); }
            }
            CHECK(!threw, "connect-fails", "one of %d concurrent first connections fails: %s", procs, why.c_str());
            for (int b = 0; b < each; ++b) { m->put((uint64_t) (p * 100 + b + 1), 20); m->flush(); }
            m->set_register((uint8_t) p, 1000 + (uint32_t) p);
            sh->connected.fetch_add(odd ? 1000 : 1); wait_flag(sh->stop, 30);
            CHECK(m->get_register((uint8_t) p) == 1000u + (uint32_t) p, "register", "a register set after a concurrent first connection is lost");
            m->disconnect(); _exit(0);
        }
        kids.push_back(k);
    }
    while (sh->ready.load() < procs) usleep(20);
    sh->go = 1;
    { double t0 = now(); for (;;) { int c = sh->connected.load(); if (c % 1000 + c / 1000 >= procs || now() - t0 > 20) break; usleep(50); siginfo_t si; si.si_pid = 0; if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid) break; } }
    int c = sh->connected.load(), odd = c / 1000, even = c % 1000; bool all = odd + even == procs;
    if (all) { long a = key.attached(); CHECK(a == procs, "two-queues", "%d connected processes, %ld mappings of the segment", procs, a); }
    CHECK(!(odd && even), "mismatch-accepted", "two geometries are accepted by concurrent first connections");
    sh->stop = 1; settle(join(kids, 20, std::set<size_t>(), "concurrent first connections"), "concurrent first connections");
    HCHECK(all, "not all connected");
    IQueue *m = make_queue(g.t); { Dog d("connecting after a crowd"); m->connect(key.c(), even ? g.bs : o.bs, even ? g.n : o.n); }
    std::map<int, int> next; int n = 0; CHECK(m->boxes() == procs * each, "box-count", "after concurrent first connections %ld boxes are reported, not %d", m->boxes(), procs * each);
    while (m->unflush(IPC_NOWAIT, 1000)) { Box b = empty_box(m, "after a crowd"); CHECK(b.size() == 1, "box-damaged", "a box of one record arrives with %zu", b.size()); int p = (int) (b[0] / 100), i = (int) (b[0] % 100); CHECK(i == ++next[p], "box-lost", "after concurrent first connections box %d of process %d arrives in place of %d", i, p, next[p]); ++n; }
    CHECK(n == procs * each, "box-lost", "after concurrent first connections %d of %d boxes arrive", n, procs * each);
    delete m; CHECK(key.attached() == 0, "mapping-kept", "mappings are left after all have disconnected");
    evaluated(1); distinct(mix(mix((uint64_t) procs, (uint64_t) delay), seeds[0])); ev("crowds"); ev("concurrent first connections", (uint64_t) procs); if (rivals) ev("crowds of two geometries");
    if (want_sample()) sample("crowd of %d processes, pauses up to %d us%s", procs, delay, rivals ? ", two geometries" : "");
}

void vp_init() { shm_start(); }
void vp_custom()
{
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) {}; sigaction(SIGUSR1, &a, 0);
    sh = shared<Shm>(); double end = now() + opt.num("budget", 1000); string mode = opt.str("mode", "orders");
    if (mode == "standing")
    {
        find_lock(); uint64_t c = 0; static const Geo gs[] = { { 2, 100, 6 }, { 4, 200, 9 }, { 0, 18, 8 } };
        for (uint64_t round = 0; round < opt.cases; ++round)
            for (int ao = 0; ao < S_KINDS; ++ao) for (int bo = 0; bo < S_KINDS; ++bo) for (int sg = 0; sg < 2; ++sg)
            {
                if (c++ % opt.shards != opt.shard) continue;
                if (round && now() > end) return;
                Rng r(mix(mix(opt.seed, c), round));
                for (long at = 1; at < 60; ++at) if (!standing(r, ao, bo, at, sg, gs[r.below(3)])) break;
            }
        return;
    }
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i)
    {
        Rng r(mix(mix(opt.seed, opt.shard), mix(i, (uint64_t) opt.num("seedoff", 0))));
        static const int order[] = { K_FLUSH, K_TAKE, K_FIRST, K_PUT, K_FLUSH, K_TAKE, K_SET, K_TAKE_EMPTY, K_FLUSH, K_TAKE, K_FLUSH_FULL, K_CONNECT, K_FIRST, K_GETREG, K_GET, K_DISCONNECT };
        if (mode == "orders") orders(r);
        else if (mode == "step") { static const int bigs[] = { K_FLUSH, K_TAKE, K_PUT, K_TAKE }; stepped(r, opt.num("big", 0) ? bigs[i % 4] : order[(i + opt.shard * 5) % 16]); }
        else if (mode == "deaths") storm(r, i % 3 != 2);
        else crowd(r);
    }
}
void vp_case(In &) { }
uint64_t vp_exh_count(bool) { return 0; }
void vp_exh(uint64_t) { }
