// C20 processes killed inside operations on a shared map: every state of the memory an operation passes through is given to survivors.
#define VP_SYSWRAP_IMPL
#include "shmmap.hpp"
#include <atomic>

struct W25 { uint64_t w[25]; };
static IMap *make(unsigned t)
{
    switch (t)
    {
    case 0: return new MapOf<uint64_t, 4, 1>;
    case 1: return new MapOf<W5, 4, 2>;
    case 2: return new MapOf<P13, 6, 3>;
    case 3: return new MapOf<uint32_t, 2, 2>;
    case 4: return new MapOf<W25, 3, 1>;
    default: return new MapOf<uint8_t, 12, 4>;
    }
}
enum { TYPES = 6 };
typedef MapOf<W25, 64, 7> SM;
enum Kind { INSERT, ERASE, BINSERT, BERASE, READ, SIZE, EACH, CLEAR, CONNECT, UINSERT, UERASE, KINDS };
static const char *const kinds[] = { "insert", "erase", "bulk insert", "bulk erase", "read", "size", "iteration", "clear", "connect", "insert under an explicit lock", "erase under an explicit lock" };
struct Act { unsigned kind; std::vector<KV> kv; };

static void run(IMap *m, const Act &a, unsigned t, const char *file)
{
    std::vector<uint64_t> ks; uint64_t s; bool w;
    switch (a.kind)
    {
    case INSERT: m->insert(a.kv[0].first, a.kv[0].second); break;
    case ERASE: m->erase(a.kv[0].first); break;
    case BINSERT: m->insert(a.kv); break;
    case BERASE: for (auto &q : a.kv) ks.push_back(q.first); m->erase(ks); break;
    case READ: m->read(a.kv[0].first, s, w); break;
    case SIZE: m->size(); break;
    case EACH: { std::vector<KV> v; m->lock(false); m->each(v, 50, w); m->unlock(false); break; }
    case CLEAR: m->clear(); break;
    case UINSERT: m->lock(true); m->uinsert(a.kv[0].first, a.kv[0].second); m->unlock(true); break;
    case UERASE: m->lock(true); m->uerase(a.kv[0].first); m->unlock(true); break;
    default: { IMap *x = make(t); x->connect(file); x->disconnect(); delete x; }
    }
}

// what an operation does to the entries, one step per key
static std::vector<Model> steps_of(const Act &a, const Model &pre, size_t cap)
{
    std::vector<Model> r(1, pre);
    for (auto &q : a.kv)
    {
        Model x = r.back();
        if (a.kind == INSERT || a.kind == BINSERT || a.kind == UINSERT) { if (x.count(q.first) || x.size() < cap) x[q.first] = q.second; }
        else if (a.kind == ERASE || a.kind == BERASE || a.kind == UERASE) x.erase(q.first);
        else continue;
        r.push_back(x);
    }
    return r;
}
struct Seen { Model m; std::set<uint64_t> torn; };
static Seen look(IMap *m, const string &what)
{
    Dog d(what.c_str(), "lock-kept"); Seen s; std::vector<KV> v; bool whole;
    m->lock(false); bool ends = m->each(v, (size_t) m->N() + 1, whole); m->unlock(false);
    CHECK(ends, "iteration-endless", "%s: iteration does not end", what.c_str());
    for (auto &q : v)
    {
        CHECK(!s.m.count(q.first), "iteration-repeats", "%s: iteration shows key %llu twice", what.c_str(), (unsigned long long) q.first);
        uint64_t x = 0; bool w; bool r = m->read(q.first, x, w);
        CHECK(r && x == q.second, "read-differs", "%s: key %llu is shown by iteration but reading %s", what.c_str(), (unsigned long long) q.first, r ? "gives another value" : "does not find it");
        s.m[q.first] = q.second; if (!w) s.torn.insert(q.first);
    }
    return s;
}
static void put(IMap *m, Model &now_, std::set<uint64_t> &torn, uint64_t k, uint64_t v, size_t cap, size_t lostmax, const string &what)
{
    bool had = now_.count(k), r = m->insert(k, v);
    if (r) { CHECK(had || now_.size() < cap, "beyond-capacity", "%s: afterwards more entries than the capacity %zu are taken", what.c_str(), cap); now_[k] = v; torn.erase(k); }
    else CHECK(!had && now_.size() + lostmax >= cap, "insert-refused", "%s: afterwards an insert of %s key is refused with %zu of %zu entries", what.c_str(), had ? "a present" : "a new", now_.size(), cap);
    uint64_t s = 0; bool w, g = m->read(k, s, w);
    CHECK(g == (now_.count(k) != 0) && (!g || (w && s == now_[k])), "not-normal", "%s: afterwards a key reads wrongly after being inserted", what.c_str());
}
static void same(IMap *m, const Model &now_, const std::set<uint64_t> &torn, const string &what)
{
    Seen s = look(m, what);
    CHECK(s.m.size() == now_.size(), "entry-disturbed", "%s: later %zu entries are shown, %zu expected", what.c_str(), s.m.size(), now_.size());
    for (auto &q : now_) { CHECK(s.m.count(q.first) && s.m[q.first] == q.second && (!s.torn.count(q.first) || torn.count(q.first)), "entry-disturbed", "%s: later key %llu has lost its value", what.c_str(), (unsigned long long) q.first); }
}

// the survivors' view after a death inside the action
static void survive(IMap *m, const Act &a, const Model &pre, int order, const string &what, uint64_t lost0)
{
    Dog dog(what.c_str(), "lock-kept");
    size_t cap = (size_t) m->N(); Seen s = look(m, what); bool ok = false; bool inside = false;
    if (a.kind == CLEAR)
    {
        ok = true; for (auto &q : s.m) { auto i = pre.find(q.first); ok &= i != pre.end() && i->second == q.second && !s.torn.count(q.first); }
    }
    else
    {
        std::vector<Model> st = steps_of(a, pre, cap);
        for (size_t i = 0; i < st.size() && !ok; ++i)
        {
            bool write = st.size() > 1; uint64_t k = write && i + 1 < st.size() ? a.kv[i].first : 0; bool busy = write && i + 1 < st.size();
            Model x = s.m, y = st[i]; bool fine = true;
            for (uint64_t t : s.torn) fine &= busy && t == k && y.count(k);                     // only an entry being overwritten may be torn
            if (busy)
            {
                bool over = y.count(k) && a.kind != ERASE && a.kind != BERASE && a.kind != UERASE;
                if (over) fine &= x.count(k) != 0;                                              // an overwritten one stays present
                else if (x.count(k)) fine &= x[k] == (y.count(k) ? y[k] : st[i + 1].count(k) ? st[i + 1][k] : ~x[k]);   // else old, new or absent
                else fine &= true;
                x.erase(k); y.erase(k);
            }
            ok = fine && x == y; inside |= busy;
        }
    }
    if (!ok)
    {
        string t; for (auto &q : pre) t += fmt("%llu:%llu ", (unsigned long long) q.first, (unsigned long long) q.second); t += "-> "; for (auto &q : s.m) t += fmt("%llu:%llu%s ", (unsigned long long) q.first, (unsigned long long) q.second, s.torn.count(q.first) ? "(torn)" : "");
        violation("entry-disturbed", "%s: entries it was not modifying are lost or changed, or a new one is incomplete: %s", what.c_str(), t.c_str());
    }
    for (auto &q : pre) if (!s.m.count(q.first)) { uint64_t z; bool w; CHECK(!m->read(q.first, z, w), "read-differs", "%s: a key is found by reading but not shown by iteration", what.c_str()); }
    for (auto &q : a.kv) if (!s.m.count(q.first)) { uint64_t z; bool w; CHECK(!m->read(q.first, z, w), "read-differs", "%s: a key is found by reading but not shown by iteration", what.c_str()); }
    size_t lostmax = a.kind == CLEAR ? cap : lost0 + 1;
    size_t sz = m->size();
    CHECK(sz >= s.m.size() && sz <= s.m.size() + lostmax && sz <= cap, "slots-lost", "%s: the size is %zu with %zu entries of %zu", what.c_str(), sz, s.m.size(), cap);
    Model cur = s.m; std::set<uint64_t> torn = s.torn; uint64_t fresh = 1000, stamp = 1;
    auto val = [&] { return cut(0x1234560000ull + ++stamp, m->vsize()); };
    auto fill_up = [&](size_t lm) {
        for (size_t i = 0; i < cap + 2; ++i) put(m, cur, torn, fresh++, val(), cap, lm, what);
        CHECK(cur.size() + lm >= cap, "slots-lost", "%s: afterwards only %zu of %zu entries can be held", what.c_str(), cur.size(), cap);
        same(m, cur, torn, what);
    };
    auto touched = [&] {
        for (auto &q : a.kv)
        {
            bool had = cur.count(q.first);
            CHECK(m->erase(q.first) == had, "not-normal", "%s: afterwards its key is not erased normally", what.c_str());
            cur.erase(q.first); torn.erase(q.first);
            uint64_t z; bool w; CHECK(!m->read(q.first, z, w), "not-normal", "%s: its key is still there after being erased", what.c_str());
            CHECK(!m->erase(q.first), "not-normal", "%s: its key can be erased twice", what.c_str());
            put(m, cur, torn, q.first, val(), cap, lostmax, what); put(m, cur, torn, q.first, val(), cap, lostmax, what);
        }
        same(m, cur, torn, what);
    };
    if (order == 0) { fill_up(lostmax); touched(); }
    else if (order == 1) { touched(); fill_up(lostmax); }
    for (auto &q : Model(cur)) { CHECK(m->erase(q.first), "not-normal", "%s: afterwards an entry is not erased", what.c_str()); cur.erase(q.first); if (order == 2 && (q.first & 1)) put(m, cur, torn, fresh++, val(), cap, lostmax, what); }
    for (auto &q : Model(cur)) { CHECK(m->erase(q.first), "not-normal", "%s: afterwards an entry is not erased", what.c_str()); cur.erase(q.first); }
    torn.clear(); same(m, cur, torn, what);
    fill_up(lostmax);
    m->clear(); cur.clear(); CHECK(m->size() == 0, "not-normal", "%s: size %zu after clear", what.c_str(), m->size());
    fill_up(0);
    (void) inside;
}

static bool step(pid_t p, int &st)
{
    HCHECK(ptrace(PTRACE_SINGLESTEP, p, 0, 0) == 0, "single step: %s", strerror(errno));
    HCHECK(waitpid(p, &st, 0) == p, "wait for step");
    return WIFSTOPPED(st);
}
struct Prep { unsigned t; Key key; IMap *m; uint8_t *seg; size_t bytes; Model pre; Act act; std::vector<uint8_t> image; Prep(): key("map"), m(0), seg(0) {} ~Prep() { if (seg) __real_shmdt(seg); delete m; } };

static pid_t victim(Prep &P)
{
    fflush(0); pid_t p = fork(); HCHECK(p >= 0, "fork");
    if (!p)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(0);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(79);
        raise(SIGSTOP);
        try { run(P.m, P.act, P.t, P.key.c()); } catch (...) { _exit(3); }
        _exit(0);
    }
    int st; HCHECK(waitpid(p, &st, 0) == p && WIFSTOPPED(st), "victim did not stop");
    return p;
}

static void prepare(Prep &P, Rng &r, int kind)
{
    P.t = (unsigned) r.below(TYPES); P.m = make(P.t); P.m->connect(P.key.c());
    size_t cap = (size_t) P.m->N(); unsigned range = (unsigned) cap + 2; uint64_t stamp = 1;
    auto val = [&] { return cut(stamp++ * 0x0101010101010101ull + 0x11, P.m->vsize()); };
    auto ins = [&](uint64_t k) { uint64_t v = val(); if (P.m->insert(k, v)) P.pre[k] = v; };
    auto del = [&](uint64_t k) { P.m->erase(k); P.pre.erase(k); };
    unsigned style = (unsigned) r.below(4);
    if (style == 1) for (uint64_t k = 0; k < cap; ++k) ins(k);
    else if (style == 2) { for (uint64_t k = 0; k < cap; ++k) ins(k); for (unsigned i = 0; i < 1 + r.below(cap); ++i) del(r.below(cap)); }
    else for (unsigned i = 0, n = (unsigned) r.below(4 * cap); i < n; ++i) { if (r.chance(2, 3)) ins(r.below(range)); else del(r.below(range)); }
    P.act.kind = (unsigned) kind;
    unsigned n = kind == BINSERT || kind == BERASE ? 1 + (unsigned) r.below(4) : kind >= SIZE && kind <= CONNECT ? 0 : 1; std::set<uint64_t> used;
    for (unsigned i = 0; i < n; ++i)
    {
        uint64_t k; bool er = kind == ERASE || kind == BERASE || kind == UERASE;
        if (P.pre.size() && r.chance(er ? 7 : 3, 8)) { auto it = P.pre.begin(); std::advance(it, (long) r.below(P.pre.size())); k = it->first; } else k = r.below(range);
        if (n > 1 && !used.insert(k).second) continue;
        P.act.kv.push_back(KV(k, val()));
    }
    struct shmid_ds d; HCHECK(shmctl(P.m->shmid(), IPC_STAT, &d) == 0, "stat"); P.bytes = d.shm_segsz;
    P.seg = (uint8_t *) __real_shmat(P.m->shmid(), 0, 0); HCHECK(P.seg != (uint8_t *) -1, "attach");
    P.image.assign(P.seg, P.seg + P.bytes);
}

static string describe(Prep &P, const char *where)
{
    string s = fmt("killed %s inside %s of", where, kinds[P.act.kind]);
    for (auto &q : P.act.kv) s += fmt(" %llu", (unsigned long long) q.first);
    return s + fmt(" (capacity %d, %d buckets, %zu entries)", P.m->N(), P.m->H(), P.pre.size());
}

// single steps through the operation; every state of the memory is handed to survivors; then real deaths at some of the steps
static void stepped(Rng &r, int kind)
{
    Prep P; prepare(P, r, kind);
    pid_t v = victim(P); int st; long steps = 0, first = -1, last = -1;
    std::vector<std::vector<uint8_t> > snaps; std::vector<long> at; snaps.push_back(P.image); at.push_back(0);
    while (step(v, st))
    {
        ++steps; HCHECK(steps < 400000, "endless operation"); int sg = WSTOPSIG(st);
        if (sg != SIGTRAP && sg != SIGSTOP) { kill(v, SIGKILL); waitpid(v, &st, 0); violation("crash", "%s: signal %d", describe(P, "nowhere").c_str(), sg); }
        if (memcmp(snaps.back().data(), P.seg, P.bytes)) { snaps.push_back(std::vector<uint8_t>(P.seg, P.seg + P.bytes)); at.push_back(steps); if (first < 0) first = steps; last = steps; }
    }
    HCHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "victim status %x", st);
    ev("instructions stepped", (uint64_t) steps);
    uint64_t h = mix(mix(P.t, P.act.kind), hash(P.image.data(), P.bytes));
    for (size_t i = 0; i < snaps.size(); ++i)
    {
        for (int order = 0; order < 3; ++order)
        {
            memcpy(P.seg, snaps[i].data(), P.bytes);
            survive(P.m, P.act, P.pre, order, describe(P, fmt("after %ld instructions", at[i]).c_str()), 0);
        }
        uint64_t hs = hash(snaps[i].data(), P.bytes, h); distinct(hs); evaluated(1); ev("states left by a death");
    }
    ev(kinds[P.act.kind]);
    if (snaps.size() > 2) ev("operations with states in between");
    // a real death, with another process waiting for the lock
    int deaths = 1 + (int) r.below(2);
    for (int d = 0; d < deaths; ++d)
    {
        memcpy(P.seg, P.image.data(), P.bytes);
        long n = first > 0 && r.chance(2, 3) ? first - 6 + (long) r.below((uint64_t) (last - first + 12)) : (long) r.below((uint64_t) steps); if (n < 0) n = 0; if (n >= steps) n = steps - 1;
        pid_t q = victim(P); bool alive = true; for (long i = 0; i < n && alive; ++i) alive = step(q, st);
        if (!alive) continue;
        string what = describe(P, fmt("for real after %ld of %ld instructions", n, steps).c_str());
        std::vector<pid_t> w; bool waiting = r.chance(1, 2);
        if (waiting)
        {
            pid_t k = spawn(); if (!k) { alarm(0); uint64_t z; bool b; if (P.m->N() > 2) P.m->read(500, z, b); P.m->lock(true); P.m->unlock(true); P.m->size(); _exit(0); }
            w.push_back(k); usleep(300);
        }
        kill(q, SIGKILL); HCHECK(waitpid(q, &st, 0) == q, "wait");
        if (waiting) settle(join(w, 15, std::set<size_t>(), what.c_str()), what.c_str());
        if (r.chance(1, 2))
        {
            // the survivor is another process that connects now
            pid_t k = spawn(); if (!k) { IMap *x = make(P.t); { Dog dd(what.c_str(), "lock-kept"); x->connect(P.key.c()); } survive(x, P.act, P.pre, (int) r.below(3), what, 0); _exit(0); }
            w.clear(); w.push_back(k); settle(join(w, 40, std::set<size_t>(), what.c_str()), what.c_str());
        }
        else survive(P.m, P.act, P.pre, (int) r.below(3), what, 0);
        evaluated(1); ev("real deaths"); distinct(mix(h, (uint64_t) n));
    }
    if (want_sample()) sample("%s of %zu keys on %zu entries: %ld instructions, %zu states", kinds[P.act.kind], P.act.kv.size(), P.pre.size(), steps, snaps.size());
}

// the very first connection and the first insert: states of a segment in the making
static void making(Rng &r)
{
    unsigned t = (unsigned) r.below(TYPES); Act act; act.kind = INSERT; act.kv.push_back(KV(1 + r.below(3), 77)); long total = 0, changes = 0;
    std::vector<long> at; int rounds = 3;
    for (int round = 0; round < rounds; ++round)
    {
        Key key("map"); int st; long steps = 0, stop = -1; uint8_t *seg = 0; size_t bytes = 0; std::vector<std::vector<uint8_t> > snaps; std::vector<long> when;
        if (round) { stop = r.chance(3, 4) ? at[r.below(at.size())] - 4 + (long) r.below(8) : (long) r.below((uint64_t) total); if (stop < 0) stop = 0; if (stop >= total) stop = total - 1; }
        fflush(0); pid_t v = fork(); HCHECK(v >= 0, "fork");
        if (!v)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(0); IMap *m = make(t);
            if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(79);
            raise(SIGSTOP);
            try { m->connect(key.c()); m->insert(act.kv[0].first, act.kv[0].second); } catch (...) { _exit(3); }
            _exit(0);
        }
        HCHECK(waitpid(v, &st, 0) == v && WIFSTOPPED(st), "victim did not stop");
        bool alive = true; int sem_seen = 0;
        while (steps != stop && (alive = step(v, st)))
        {
            ++steps; HCHECK(steps < 400000, "endless operation");
            if (stop >= 0) continue;
            if (!sem_seen && key.sem() >= 0) { sem_seen = 1; at.push_back(steps); }
            if (!seg && key.shm() >= 0) { at.push_back(steps); struct shmid_ds d; shmctl(key.shm(), IPC_STAT, &d); bytes = d.shm_segsz; seg = (uint8_t *) __real_shmat(key.shm(), 0, 0); snaps.push_back(std::vector<uint8_t>(bytes, 0)); when.push_back(steps); }
            if (seg && memcmp(snaps.back().data(), seg, bytes)) { snaps.push_back(std::vector<uint8_t>(seg, seg + bytes)); when.push_back(steps); at.push_back(steps); }
        }
        string base; { IMap *m = make(t); base = fmt("killed inside the first connection and insert (capacity %d, %d buckets)", m->N(), m->H()); delete m; }
        if (stop < 0)
        {
            HCHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && seg, "victim status %x", st); total = steps; changes = (long) snaps.size();
            for (size_t i = 0; i < snaps.size(); ++i) for (int order = 0; order < 2; ++order)
            {
                memcpy(seg, snaps[i].data(), bytes); string what = base + fmt(" after %ld instructions", when[i]);
                IMap *m = make(t); { Dog d(what.c_str(), "lock-kept"); try { m->connect(key.c()); } catch (const std::exception &e) { violation("connect-fails", "%s: connecting fails: %s", what.c_str(), e.what()); } }
                survive(m, act, Model(), order, what, 0); delete m;
                evaluated(1); distinct(mix(mix(t, (uint64_t) order), hash(snaps[i].data(), bytes))); ev("states of a map in the making");
            }
            __real_shmdt(seg);
        }
        else
        {
            if (!alive) continue;
            kill(v, SIGKILL); HCHECK(waitpid(v, &st, 0) == v, "wait");
            string what = base + fmt(" for real after %ld of %ld instructions", stop, total);
            IMap *m = make(t); { Dog d(what.c_str(), "lock-kept"); try { m->connect(key.c()); } catch (const std::exception &e) { violation("connect-fails", "%s: connecting fails: %s", what.c_str(), e.what()); } }
            survive(m, act, Model(), (int) r.below(3), what, 0); delete m;
            evaluated(1); distinct(mix(mix(t, 77), (uint64_t) stop)); ev("real deaths in first connections");
        }
    }
    (void) changes;
}

// deaths at full speed: each process works on keys of its own and notes what it is doing
struct Note { std::atomic<uint64_t> seq, kind, key, val; std::atomic<uint64_t> has[8], cur[8]; };
struct Storm { Note n[6]; std::atomic<int> ready, go, stop; };
static Storm *sto;
static void storm(Rng &r)
{
    Key key("map"); new (sto) Storm(); SM m; m.connect(key.c());
    int procs = 2 + (int) r.below(4); std::vector<uint64_t> seeds; for (int i = 0; i < procs; ++i) seeds.push_back(r.next());
    std::vector<pid_t> kids;
    for (int p = 0; p < procs; ++p)
    {
        pid_t k = spawn();
        if (!k)
        {
            SM x; x.connect(key.c()); Rng q(seeds[(size_t) p]); Note &n = sto->n[p]; uint64_t st = 1;
            sto->ready.fetch_add(1); while (!sto->go.load()) ;
            while (!sto->stop.load())
            {
                uint64_t i = q.below(8), kk = (uint64_t) p * 8 + i, v = (uint64_t) (p + 1) * 1000000 + st++;
                unsigned kd = q.below(10) < 6 ? 1 : 2;
                n.key = i; n.val = v; n.kind = kd; n.seq.fetch_add(1);
                if (kd == 1) { bool ok = x.insert(kk, v); CHECK(ok, "insert-refused", "an insert fails beside dying processes though at most %d slots are lost", procs); n.cur[i] = v; n.has[i] = 1; }
                else { bool had = n.has[i].load(), e = x.erase(kk); CHECK(e == had, "entry-disturbed", "an entry of a living process is %s", had ? "gone" : "back"); n.has[i] = 0; }
                n.kind = 0;
                if (q.chance(1, 3)) { uint64_t j = q.below(8), s = 0; bool w, g = x.read((uint64_t) p * 8 + j, s, w); CHECK(g == (n.has[j].load() != 0) && (!g || (w && s == n.cur[j].load())), "entry-disturbed", "an entry of a living process has changed"); }
            }
            _exit(0);
        }
        kids.push_back(k);
    }
    while (sto->ready.load() < procs) usleep(20);
    sto->go = 1; std::set<size_t> dead; int kills = 1 + (int) r.below((uint64_t) procs - 1);
    for (int i = 0; i < kills; ++i)
    {
        struct timespec t = { 0, (long) r.below(3000000) }; nanosleep(&t, 0);
        size_t who = r.below(kids.size()); kill(kids[who], SIGKILL); dead.insert(who);
    }
    usleep(1000); uint64_t before = 0, after = 0; for (size_t p = 0; p < kids.size(); ++p) if (!dead.count(p)) before += sto->n[p].seq.load();
    usleep((useconds_t) 1000);
    if (dead.size() < kids.size()) { double t0 = now(); do { after = 0; for (size_t p = 0; p < kids.size(); ++p) if (!dead.count(p)) after += sto->n[p].seq.load(); CHECK(now() - t0 < 15, "lock-kept", "after %zu deaths the other processes do not go on", dead.size()); usleep(100); } while (after < before + 20); }
    sto->stop = 1;
    settle(join(kids, 20, dead, "processes beside dying ones"), "processes beside dying ones");
    Dog d("using a map after deaths", "lock-kept");
    std::vector<KV> v; bool whole; m.lock(false); bool ends = m.each(v, 66, whole); m.unlock(false);
    CHECK(ends, "iteration-endless", "after deaths iteration does not end");
    Model got; for (auto &q : v) { CHECK(!got.count(q.first), "iteration-repeats", "after deaths iteration shows a key twice"); got[q.first] = q.second; }
    uint64_t h = 0;
    for (int p = 0; p < procs; ++p) for (uint64_t i = 0; i < 8; ++i)
    {
        Note &n = sto->n[p]; uint64_t kk = (uint64_t) p * 8 + i; bool g = got.count(kk);
        if (dead.count((size_t) p) && n.kind.load() && n.key.load() == i) { ev("deaths inside an operation"); h = mix(h, n.kind.load() + 2 * g); continue; }
        CHECK(g == (n.has[i].load() != 0) && (!g || got[kk] == n.cur[i].load()), "entry-disturbed", "after deaths an entry nobody was modifying is %s", g ? "changed or back" : "lost");
        h = mix(h, g);
    }
    size_t sz = m.size(); CHECK(sz >= got.size() && sz <= got.size() + dead.size(), "slots-lost", "after %zu deaths the size is %zu with %zu entries", dead.size(), sz, got.size());
    for (uint64_t k = 100; got.size() < 64 - dead.size(); ++k) { CHECK(m.insert(k, k), "slots-lost", "after %zu deaths only %zu entries fit", dead.size(), got.size()); got[k] = k; }
    v.clear(); m.lock(false); ends = m.each(v, 66, whole); m.unlock(false);
    CHECK(ends && v.size() == got.size() && Model(v.begin(), v.end()).size() == got.size(), "entry-disturbed", "after deaths and refilling, iteration shows %zu of %zu entries", v.size(), got.size());
    evaluated(1); distinct(mix(h, seeds[0])); ev("storms"); ev("deaths at full speed", dead.size());
}

void vp_init() { shm_start(); }
void vp_custom()
{
    sto = shared<Storm>(); double end = now() + opt.num("budget", 1000); string mode = opt.str("mode", "step");
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i)
    {
        Rng r(mix(mix(opt.seed, opt.shard), mix(i, (uint64_t) opt.num("seedoff", 0))));
        static const int order[] = { INSERT, ERASE, BINSERT, BERASE, CLEAR, INSERT, ERASE, UINSERT, UERASE, READ, INSERT, ERASE, BINSERT, BERASE, CLEAR, CONNECT, SIZE, EACH };
        if (mode == "storm") storm(r); else if (i % 19 == 18) making(r); else stepped(r, order[i % 19]);
    }
}
void vp_case(In &) { }
uint64_t vp_exh_count(bool) { return 0; }
void vp_exh(uint64_t) { }
