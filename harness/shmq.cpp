// C21 shared queues: sequential histories against a model, concurrent ones against delivery rules.
#define VP_SYSWRAP_IMPL
#include "shmqueue.hpp"
#include <atomic>
#include <deque>

typedef std::vector<uint64_t> Box;
void vp_init() { shm_start(); }

void vp_case(In &in)
{
    unsigned t = in.below(QTYPES); uint32_t bs, ring;
    switch (in.below(4)) { case 0: bs = 1 + in.below(40); break; case 1: bs = 40 + in.below(300); break; case 2: { IQueue *q = make_queue(t); bs = (uint32_t) (q->rec(20) * (1 + in.below(8))) + (in.chance(1, 3) ? in.below(3) - 1 : 0); delete q; break; } default: bs = 1000 + in.below(9000); }
    switch (in.below(4)) { case 0: ring = 1 + in.below(3); break; case 1: ring = 2 + in.below(6); break; case 2: ring = 2 + in.below(30); break; default: ring = 2 + in.below(200); }
    Key key("queue"); enum { W = 2, R = 2 }; IQueue *w[W], *r[R]; Box cur[W]; size_t pos[W] = { 0, 0 }; bool vague[R] = { false, false };
    std::vector<uint64_t> left[R]; std::vector<Box> q; uint32_t reg[12] = { 0 }; uint64_t id = 1, h = mix(t, mix(bs, ring)); string log; bool wrapped = false, fullseen = false; uint64_t flushed = 0;
    Dog dog("a sequential history of a queue");
    for (int i = 0; i < W; ++i) { w[i] = make_queue(t, in.chance(1, 2) ? 2 : 0); w[i]->connect(key.c(), bs, ring); }
    for (int i = 0; i < R; ++i) { r[i] = make_queue(t, in.chance(1, 2) ? 1 : 0); r[i]->connect(key.c(), bs, ring); }
    string head = fmt("boxes of %u bytes, ring of %u, records of type %u: ", bs, ring, t);
    auto say = [&](const string &s) { if (log.size() < 1500) log += s + ' '; h = hash(s, h); };
    auto where = [&] { return (head + log); };
    auto model_flush = [&](int i) { if (q.size() + 1 < ring) { q.push_back(cur[i]); if (++flushed >= ring) wrapped = true; } else { fullseen = true; ev("boxes discarded: ring full"); } cur[i].clear(); pos[i] = 0; };
    auto count = [&] { CHECK(w[0]->boxes() == (long) q.size() && r[1]->pages() == (long) q.size(), "box-count", "%ld (or %ld) boxes reported, %zu are unread: %s", w[0]->boxes(), r[1]->pages(), q.size(), where().c_str()); };
    auto take = [&](int i, short flg, long usec) {
        bool expect = !q.empty(); double a = now(); bool g = r[i]->unflush(flg, usec); double took = now() - a;
        CHECK(g == expect, expect ? "box-lost" : "box-from-nowhere", "taking a box returns %d with %zu boxes unread: %s", g, q.size(), where().c_str());
        if (!g) { CHECK(took < (double) usec / 1e6 + 3, "timeout", "a read on an empty queue with a timeout of %ld us fails after %.2f s", usec, took); vague[i] = !left[i].empty(); ev("reads on an empty queue"); return; }
        left[i] = q.front(); q.erase(q.begin()); vague[i] = false; ev("boxes taken"); if (left[i].empty()) ev("empty boxes taken");
    };
    auto getone = [&](int i) {
        Got g = { 0, true }; bool ok = r[i]->get(g);
        if (vague[i]) { if (!ok) { left[i].clear(); vague[i] = false; return; } }
        CHECK(ok == !left[i].empty(), ok ? "record-from-nowhere" : "record-lost", "a record is %sfound with %zu left in the box: %s", ok ? "" : "not ", left[i].size(), where().c_str());
        if (!ok) return;
        CHECK(g.whole && g.id == left[i][0], "record-wrong", "record %llu arrives as %llu%s: %s", (unsigned long long) left[i][0], (unsigned long long) g.id, g.whole ? "" : " (damaged)", where().c_str());
        left[i].erase(left[i].begin()); ev("records got");
    };
    unsigned steps = 10 + in.below(150), bias = in.below(3);
    for (unsigned n = 0; n < steps && in.more(); ++n)
    {
        unsigned o = in.below(100); int i = in.below(W), j = in.below(R);
        if (bias == 1) o = o / 2; else if (bias == 2) o = 30 + o * 7 / 10;
        if (o < 40)
        {
            unsigned many = in.chance(1, 3) ? 1 + in.below(30) : 1;
            for (unsigned k = 0; k < many; ++k)
            {
                size_t want = in.chance(1, 20) ? bs + in.below(4) : in.chance(1, 4) ? in.below(bs + 2) : 10 + in.below(40), sz = w[i]->rec(want); if (sz > 60000) continue; bool refuse = in.chance(1, 30); uint64_t me = w[i]->cutid(id++);
                say(fmt("put%d(%zu%s)", i, sz, refuse ? ",refusing" : ""));
                bool fits = pos[i] + sz <= bs && !refuse, r2;
                if (!fits && q.size() + 1 < ring && in.chance(1, 1)) { }
                long before = w[i]->boxes();
                r2 = w[i]->put(me, want, refuse);
                bool expect = fits || (!refuse && sz <= bs);
                CHECK(r2 == expect, expect ? "put-refused" : "put-accepted", "a record of %zu bytes is %s with %zu of %u bytes used: %s", sz, r2 ? "accepted" : "refused", pos[i], bs, where().c_str());
                if (fits) { cur[i].push_back(me); pos[i] += sz; ev("records put"); }
                else if (expect) { model_flush(i); cur[i].push_back(me); pos[i] = sz; ev("records put"); ev("boxes flushed by a full box"); }
                else
                {
                    // whether the box is flushed on this occasion is not laid down
                    ev("records refused");
                    if (q.size() + 1 < ring) { if (w[i]->boxes() != before) model_flush(i); }
                    else { w[i]->flush(); model_flush(i); }
                }
            }
        }
        else if (o < 52) { say(fmt("flush%d", i)); if (cur[i].empty()) ev("empty boxes flushed"); w[i]->flush(); model_flush(i); ev("boxes flushed"); }
        else if (o < 58) { say(fmt("fill%d", i)); for (unsigned k = 0; k < ring + 2 && k < 60; ++k) { uint64_t me = w[i]->cutid(id++); size_t sz = w[i]->rec(20); if (sz <= bs) { bool fits = pos[i] + sz <= bs; CHECK(w[i]->put(me, 20), "put-refused", "a small record is refused: %s", where().c_str()); if (!fits) model_flush(i); cur[i].push_back(me); pos[i] = (fits ? pos[i] : 0) + sz; } w[i]->flush(); model_flush(i); } }
        else if (o < 75) { say(fmt("take%d", j)); take(j, in.chance(1, 2) ? IPC_NOWAIT : 0, q.empty() ? (long) in.below(3000) : 1000000); }
        else if (o < 80) { say(fmt("drain%d", j)); while (!q.empty()) { take(j, IPC_NOWAIT, 1000); while (!left[j].empty()) getone(j); getone(j); } take(j, IPC_NOWAIT, 0); }
        else if (o < 90) { say(fmt("get%d", j)); for (unsigned k = 0, m = 1 + in.below(5); k < m; ++k) getone(j); }
        else if (o < 94) { uint8_t k = (uint8_t) (in.chance(1, 8) ? in.u8() : in.below(12)); uint32_t v = in.chance(1, 4) ? ~in.below(2) : in.u32(); say(fmt("register%u", k)); (in.chance(1, 2) ? w[i] : r[j])->set_register(k, v); if (k < 12) reg[k] = v; ev("registers set"); }
        else if (o < 96) { for (unsigned k = 0; k < 14; ++k) { uint32_t v = (in.chance(1, 2) ? w[i] : r[j])->get_register((uint8_t) k); CHECK(v == (k < 12 ? reg[k] : 0), "register", "register %u holds %u, not %u: %s", k, v, k < 12 ? reg[k] : 0, where().c_str()); } }
        else if (o < 98) { say(fmt("reconnect-writer%d", i)); w[i]->disconnect(); w[i]->connect(key.c(), bs, ring); cur[i].clear(); pos[i] = 0; ev("reconnects"); }
        else { say(fmt("reconnect-reader%d", j)); r[j]->disconnect(); r[j]->connect(key.c(), bs, ring); left[j].clear(); vague[j] = false; }
        count();
    }
    for (int i = 0; i < W; ++i) { w[i]->flush(); model_flush(i); }
    count();
    // an ordinary reader in the end gets all that is left
    while (!left[0].empty() && !vague[0]) getone(0);
    while (!q.empty()) { take(0, 0, 1000000); while (!left[0].empty()) getone(0); getone(0); }
    take(0, IPC_NOWAIT, 0); count();
    CHECK(w[0]->registers() == 12, "register", "%d registers", w[0]->registers());
    for (int i = 0; i < W; ++i) delete w[i];
    for (int i = 0; i < R; ++i) delete r[i];
    CHECK(key.attached() == 0, "mapping-kept", "mappings are left after all are gone");
    sig(h); mark(); ev("histories"); if (wrapped) ev("histories going round the ring"); if (fullseen) ev("histories with a full ring");
    if (want_sample()) sample("%s", S(head + log));
}
// all short histories on the smallest rings
static const unsigned OPS = 5;
static unsigned L() { return opt.thorough ? 8 : 6; }
static uint64_t pw() { uint64_t r = 1; for (unsigned i = 0; i < L(); ++i) r *= OPS; return r; }
uint64_t vp_exh_count(bool) { return pw() * 2; }
void vp_exh(uint64_t index)
{
    uint32_t ring = 2 + (uint32_t) (index / pw()); uint64_t n = index % pw(); Key key("queue"); IQueue *w = make_queue(0), *r = make_queue(0); Dog dog("a short history of a queue");
    w->connect(key.c(), 18, ring); r->connect(key.c(), 18, ring);
    std::vector<Box> q; Box cur, left; uint64_t id = 1;
    auto fl = [&] { if (q.size() + 1 < ring) q.push_back(cur); cur.clear(); };
    auto take = [&] { bool g = r->unflush(IPC_NOWAIT, 0); CHECK(g == !q.empty(), g ? "box-from-nowhere" : "box-lost", "history %llu: taking returns %d with %zu boxes unread", (unsigned long long) index, g, q.size()); if (g) { left = q[0]; q.erase(q.begin()); } return g; };
    auto all = [&] { for (uint64_t x : left) { Got g; CHECK(r->get(g) && g.whole && g.id == x, "record-wrong", "history %llu: a record is lost or wrong", (unsigned long long) index); } left.clear(); };
    for (unsigned i = 0; i < L(); ++i, n /= OPS)
    {
        switch (n % OPS)
        {
        case 0: if (cur.size() == 2) fl(); CHECK(w->put(id, 9), "put-refused", "history %llu: put refused", (unsigned long long) index); cur.push_back(id++); break;
        case 1: w->flush(); fl(); break;
        case 2: if (take()) all(); else left.clear(); break;
        case 3: { w->put(id, 9); if (cur.size() == 2) fl(); cur.push_back(id++); w->flush(); fl(); break; }
        default: if (take()) { } else left.clear(); break;
        }
        CHECK(r->boxes() == (long) q.size(), "box-count", "history %llu: %ld boxes reported, %zu unread", (unsigned long long) index, r->boxes(), q.size());
    }
    while (take()) { all(); Got g; CHECK(!r->get(g), "record-from-nowhere", "history %llu: a record too many", (unsigned long long) index); }
    delete w; delete r; sig(index); mark(); ev("short histories");
}

// ---- several processes -----------------------------------------------------------------------------------------------------
struct Rec { uint64_t s, e; uint32_t who, box, n; int ok; };   // a flush (who: writer, box: its number) or a take (who: writer found, box)
enum { MAXB = 4000 };
struct Shm
{
    std::atomic<int> ready, go, writing, left; std::atomic<uint32_t> nf, nt, nx; Rec f[MAXB], t[MAXB], x[MAXB];   // flushes, takes, failed takes
    std::atomic<uint64_t> signals, regs;
};
static Shm *sh;
static void put_rec(Rec *a, std::atomic<uint32_t> &n, const Rec &r) { uint32_t k = n.fetch_add(1); if (k < MAXB) a[k] = r; }

static void crowd(Rng &r)
{
    Key key("queue"); new (sh) Shm();
    unsigned t = (unsigned) r.below(2) ? 2 : (unsigned) r.below(2) ? 3 : 4; uint32_t per = 1 + (uint32_t) r.below(r.chance(1, 4) ? 200 : 12), bs = per * 110 + (uint32_t) r.below(50), ring = r.chance(1, 3) ? 2 + (uint32_t) r.below(3) : r.chance(1, 2) ? 3 + (uint32_t) r.below(20) : 1000;
    int W = 1 + (int) r.below(3), R = 1 + (int) r.below(3), delay = r.chance(1, 3) ? 0 : 1 + (int) r.below(150), nbox = 20 + (int) r.below(150); bool sigs = r.chance(1, 4); bool patient = r.chance(1, 2);
    std::vector<uint64_t> seeds; for (int i = 0; i < W + R; ++i) seeds.push_back(r.next());
    sh->writing = W; std::vector<pid_t> kids;
    for (int i = 0; i < W + R; ++i)
    {
        pid_t k = spawn();
        if (!k)
        {
            Rng q(seeds[(size_t) i]); IQueue *m = make_queue(t, i < W ? 2 : 1); m->connect(key.c(), bs, ring);
            sh->ready.fetch_add(1); while (!sh->go.load()) ;
            Sys s; vp_sys.rng = &q; vp_sys.delay = delay;
            if (i < W)
            {
                uint32_t lastreg = 0;
                for (int b = 1; b <= nbox; ++b)
                {
                    uint32_t n = 1 + (uint32_t) q.below(per);
                    for (uint32_t j = 0; j < n; ++j) CHECK(m->put((uint64_t) i << 56 | (uint64_t) b << 32 | (uint64_t) n << 16 | j, 10 + q.below(100)), "put-refused", "a fitting record is refused");
                    if (patient) while (m->boxes() > (long) ring / 2) usleep(20);
                    Rec x = { ns(), 0, (uint32_t) i, (uint32_t) b, n, 1 }; m->flush(); x.e = ns(); put_rec(sh->f, sh->nf, x);
                    m->set_register((uint8_t) i, (uint32_t) b);
                    uint32_t g = m->get_register((uint8_t) i); CHECK(g == (uint32_t) b, "register", "a register only this process sets holds %u, not %d", g, b);
                    uint32_t o = m->get_register((uint8_t) ((i + 1) % W)); if (W > 1) { CHECK(o >= lastreg && o <= (uint32_t) nbox, "register", "a register goes back from %u to %u", lastreg, o); lastreg = o; }
                    if (q.chance(1, 4)) usleep((useconds_t) q.below(200));
                }
                sh->writing.fetch_sub(1);
            }
            else
            {
                for (;;)
                {
                    int wr = sh->writing.load(); short flg = q.chance(1, 3) ? IPC_NOWAIT : 0; long us = q.chance(1, 2) ? 150000 : (long) q.below(3000);
                    Rec x = { ns(), 0, 0, 0, 0, flg || us < 100000 ? 0 : 1 }; bool g = m->unflush(flg, us); x.e = ns();
                    if (!g) { put_rec(sh->x, sh->nx, x); if (!wr && !sh->signals.load()) break; if (!wr && sh->left.load() == 0 && m->boxes() == 0) break; continue; }
                    if (q.chance(1, 4)) usleep((useconds_t) q.below(300));
                    Got z; uint32_t seen = 0; bool first = true;
                    while (m->get(z))
                    {
                        CHECK(z.whole, "record-damaged", "a record arrives damaged");
                        uint32_t wi = (uint32_t) (z.id >> 56), b = (uint32_t) (z.id >> 32) & 0xffffff, n = (uint32_t) (z.id >> 16) & 0xffff, j = (uint32_t) z.id & 0xffff;
                        if (first) { x.who = wi; x.box = b; x.n = n; first = false; }
                        CHECK(wi == x.who && b == x.box && n == x.n && j == seen, "box-mixed", "a box holds record %u of box %u of writer %u after %u records of box %u of writer %u", j, b, wi, seen, x.box, x.who);
                        ++seen;
                    }
                    CHECK(!first && seen == x.n, "box-cut", "a box of %u records arrives with %u", x.n, seen);
                    put_rec(sh->t, sh->nt, x);
                }
            }
            _exit(0);
        }
        kids.push_back(k);
    }
    while (sh->ready.load() < W + R) usleep(20);
    sh->left = sigs; if (sigs) sh->signals = 1;
    sh->go = 1;
    if (sigs) { while (sh->writing.load() > 0) { kill(kids[r.below(kids.size())], SIGUSR1); usleep((useconds_t) r.below(200)); siginfo_t si; si.si_pid = 0; if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid && (si.si_code != CLD_EXITED || si.si_status)) break; } sh->left = 0; }
    int bad = join(kids, 40, std::set<size_t>(), "writers and readers"); settle(bad, "writers and readers");
    uint32_t nf = std::min<uint32_t>(sh->nf, MAXB), nt = std::min<uint32_t>(sh->nt, MAXB), nx = std::min<uint32_t>(sh->nx, MAXB);
    std::map<std::pair<uint32_t, uint32_t>, Rec *> tk; uint64_t h = mix((uint64_t) W, (uint64_t) R), overlap = 0, discarded = 0;
    string what = fmt("%d writers, %d readers, ring of %u, boxes of %u bytes", W, R, ring, bs);
    for (uint32_t i = 0; i < nt; ++i)
    {
        Rec &x = sh->t[i]; auto k = std::make_pair(x.who, x.box);
        CHECK(!tk.count(k), "box-twice", "%s: box %u of writer %u is delivered twice", what.c_str(), x.box, x.who); tk[k] = &x; h = mix(h, x.who);
    }
    struct Life { Rec *f, *t; }; std::vector<Life> v;
    for (uint32_t i = 0; i < nf; ++i) { auto k = tk.find(std::make_pair(sh->f[i].who, sh->f[i].box)); Life l = { &sh->f[i], k == tk.end() ? 0 : k->second }; v.push_back(l); if (l.t) tk.erase(k); }
    CHECK(tk.empty() || nf == MAXB, "box-from-nowhere", "%s: a box never flushed is delivered", what.c_str());
    for (Life &l : v) if (l.t) CHECK(l.t->e >= l.f->s && l.t->n == l.f->n, "box-early", "%s: a box is delivered before it was flushed, or with other records", what.c_str());
    // order: a box flushed before another is not delivered after it
    std::sort(v.begin(), v.end(), [](const Life &a, const Life &b) { return a.f->s < b.f->s; });
    for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b)
    {
        if (v[b].f->s < v[a].f->e) { ++overlap; continue; }
        if (v[a].t && v[b].t) CHECK(!(v[b].t->e < v[a].t->s), "order", "%s: box %u of writer %u, flushed before box %u of writer %u, is delivered after it", what.c_str(), v[a].f->box, v[a].f->who, v[b].f->box, v[b].f->who);
        if (b > a + 400) break;
    }
    for (Life &l : v)
    {
        if (l.t) continue;
        // discarded: could the ring have been full?
        ++discarded; uint64_t could = 0;
        for (Life &o : v) if (o.t && o.f->s <= l.f->e && o.t->e >= l.f->s) ++could;
        CHECK(could + 1 >= ring, "box-lost", "%s: box %u of writer %u is lost though at most %llu boxes were unread", what.c_str(), l.f->box, l.f->who, (unsigned long long) could);
    }
    for (Life &l : v)
    {
        if (!l.t) continue;
        uint64_t sure = 0; for (Life &o : v) if (o.t && &o != &l && o.f->e < l.f->s && o.t->s > l.f->e) ++sure;
        CHECK(sure + 1 < ring, "beyond-capacity", "%s: a box is accepted though %llu boxes were unread", what.c_str(), (unsigned long long) sure);
    }
    if (!sigs) for (uint32_t i = 0; i < nx; ++i)
    {
        Rec &x = sh->x[i]; if (!x.ok) continue;
        for (Life &l : v) CHECK(!(l.t && l.f->e < x.s && l.t->s > x.e), "take-fails", "%s: taking a box fails after %llu us though one is waiting all the time", what.c_str(), (unsigned long long) (x.e - x.s) / 1000);
        CHECK(x.e - x.s < 3000000000ull, "timeout", "a read on an empty queue returns after %.1f s only", (double) (x.e - x.s) / 1e9);
    }
    IQueue *m = make_queue(t); { Dog d("a queue after use"); m->connect(key.c(), bs, ring); CHECK(m->boxes() == 0, "box-count", "%s: %ld boxes reported after all are taken", what.c_str(), m->boxes()); CHECK(!m->unflush(IPC_NOWAIT, 0), "box-from-nowhere", "a box is left"); for (int i = 0; i < W; ++i) { uint32_t g = m->get_register((uint8_t) i); CHECK(g == (uint32_t) nbox, "register", "a register holds %u, not %d", g, nbox); } } delete m;
    evaluated(1); distinct(h); ev("concurrent histories"); ev("boxes flushed concurrently", nf); ev("boxes delivered concurrently", nt); ev("boxes discarded by a full ring", discarded); ev("pairs of overlapping flushes", overlap); ev("reads on an empty queue", nx);
    if (sigs) ev("concurrent histories with signals");
    if (want_sample()) sample("%s: %u flushed, %u delivered, %llu discarded", what.c_str(), nf, nt, (unsigned long long) discarded);
}
// rings of more boxes than a semaphore counts (32767) or 16 bits hold
static void big(Rng &r)
{
    static const uint32_t SIZES[] = { 32767, 32768, 32769, 32770, 40000, 65535, 65536, 65537, 65538, 70000 };
    uint32_t ring = SIZES[r.below(10)], bs = r.chance(1, 2) ? 9 : 20; Key key("queue"); Dog dog("a queue of very many boxes", "blocked", 200);
    IQueue *w = make_queue(0, 2), *v = make_queue(0), *d = make_queue(0, 1); w->connect(key.c(), bs, ring); v->connect(key.c(), bs, ring); d->connect(key.c(), bs, ring);
    uint64_t next = 1, refused = 0, gone = 0, top = 0;
    std::deque<uint64_t> unread; string what = fmt("ring of %u boxes of %u bytes", ring, bs);
    auto count = [&] { CHECK(w->boxes() == (long) unread.size() && d->pages() == (long) unread.size(), "box-count", "%s: %ld (or %ld) boxes reported, %zu are unread", what.c_str(), w->boxes(), d->pages(), unread.size()); };
    auto flush = [&] {
        IQueue *q = r.below(2) ? w : v; CHECK(q->put(next, 9), "put-refused", "%s: a record is refused", what.c_str()); q->flush();
        if (unread.size() + 1 < ring) unread.push_back(next); else ++refused;
        ++next; top = std::max<uint64_t>(top, unread.size());
    };
    auto take = [&] {
        bool e = !unread.empty(), g = d->unflush(r.below(2) ? IPC_NOWAIT : 0, e ? 1000000 : 0);
        CHECK(g == e, e ? "box-lost" : "box-from-nowhere", "%s: taking a box returns %d with %zu unread", what.c_str(), g, unread.size());
        if (!g) return; Got x = { 0, false };
        CHECK(d->get(x) && x.whole && x.id == unread.front(), "order", "%s: box %llu arrives, not %llu, with %zu unread", what.c_str(), (unsigned long long) x.id, (unsigned long long) unread.front(), unread.size());
        if (bs < 18) { } else CHECK(!d->get(x), "record-from-nowhere", "%s: a record too many", what.c_str());
        unread.pop_front(); ++gone;
    };
    auto near = [&] { size_t n = unread.size(); return n < 3 || n + 4 > ring || (n > 32760 && n < 32775) || n % 977 == 0; };
    auto fill = [&](size_t to) { while (unread.size() < to) { flush(); if (near()) count(); } };
    auto drain = [&](size_t to) { while (unread.size() > to) { take(); if (near()) count(); } };
    for (unsigned round = 0; round < 3; ++round)
    {
        switch (r.below(4))
        {
        case 0: fill(ring - 1); for (unsigned k = 0; k < 5; ++k) flush(); count(); break;
        case 1: fill(std::min<size_t>(ring - 1, 32760)); break;
        default: fill(ring - 1); break;
        }
        // back and forth, also over the most a semaphore counts
        for (unsigned k = 0; k < 300; ++k) { unsigned n = 1 + (unsigned) r.below(12); bool up = r.below(2); while (n--) { if (up) flush(); else take(); } count(); }
        if (r.below(2)) { drain(std::min<size_t>(unread.size(), 32767 + r.below(5))); for (unsigned k = 0; k < 100; ++k) { unsigned n = 1 + (unsigned) r.below(6); bool up = r.below(2); while (n--) { if (up) flush(); else take(); } count(); } }
        if (r.below(2)) drain(r.below(2) ? 0 : r.below(ring));
    }
    drain(0); take(); count();
    delete w; delete v; delete d;
    evaluated(1); distinct(mix(ring, mix(gone, refused))); ev("histories of rings of very many boxes"); ev("boxes taken", gone); if (refused) ev("boxes discarded: ring full", refused); if (top > 32767) ev("rings holding more boxes than a semaphore counts");
    if (want_sample()) sample("%s: %llu delivered in order, %llu discarded by a full ring", what.c_str(), (unsigned long long) gone, (unsigned long long) refused);
}
// boxes of more bytes than 16 bits count, filled to the last byte with records
static void big_boxes(Rng &r)
{
    static const uint32_t SIZES[] = { 65535, 65536, 65537, 65600, 100000, 131071, 131072, 131080, 200000, 1 << 20, (1 << 20) + 7, 5000000, (1 << 24) + 3 };
    uint32_t bs = SIZES[r.below(r.chance(1, 4) ? 13 : 9)] + (uint32_t) (r.chance(1, 2) ? r.below(300) : 0), ring = 2 + (uint32_t) r.below(3); unsigned t = (unsigned) r.below(QTYPES);
    Key key("queue"); Dog dog("a queue of large boxes", "blocked", 200); string what = fmt("ring of %u boxes of %u bytes, records of type %u", ring, bs, t);
    IQueue *w = make_queue(t, 2), *d = make_queue(t, 1); w->connect(key.c(), bs, ring); d->connect(key.c(), bs, ring);
    std::deque<Box> q; Box cur; size_t pos = 0; uint64_t id = 1, n = 0, lost = 0; size_t deep = 0;
    auto flush = [&] { if (q.size() + 1 < ring) q.push_back(cur); else { ++lost; ev("boxes discarded: ring full"); } cur.clear(); pos = 0; };
    auto take = [&] {
        bool e = !q.empty(), g = d->unflush(IPC_NOWAIT, 0); CHECK(g == e, e ? "box-lost" : "box-from-nowhere", "%s: taking a box returns %d with %zu unread", what.c_str(), g, q.size());
        if (!g) return; Got x = { 0, false };
        for (size_t i = 0; i < q[0].size(); ++i) { CHECK(d->get(x), "record-lost", "%s: only %zu of %zu records of a box are found", what.c_str(), i, q[0].size()); CHECK(x.whole && x.id == q[0][i], "record-wrong", "%s: record %zu of %zu of a box is %s", what.c_str(), i, q[0].size(), x.whole ? "another" : "damaged"); ++n; }
        if (r.chance(1, 2)) CHECK(!d->get(x), "record-from-nowhere", "%s: a record too many after %zu", what.c_str(), q[0].size());
        q.pop_front();
    };
    for (unsigned box = 0, many = 4 + (unsigned) r.below(6); box < many; ++box)
    {
        size_t upto = r.chance(1, 2) ? bs : r.below(bs); bool large = r.chance(1, 2);
        for (;;)
        {
            size_t want = large ? 10 + r.below(60000) : 10 + r.below(300), left = bs - pos; if (t == 4 && left >= 10 && left < 60000 && r.chance(1, 4)) want = left;
            size_t sz = w->rec(want); uint64_t me = w->cutid(id++); if (!me) me = w->cutid(id++); bool fits = pos + sz <= bs;
            CHECK(w->put(me, want), "put-refused", "%s: a record of %zu bytes is refused with %zu used", what.c_str(), sz, pos);
            if (!fits) flush(); cur.push_back(me); pos += sz; deep = std::max(deep, pos);
            if (!fits || pos >= upto) break;
        }
        if (r.chance(1, 2)) { w->flush(); flush(); }
        CHECK(w->boxes() == (long) q.size(), "box-count", "%s: %ld boxes reported, %zu are unread", what.c_str(), w->boxes(), q.size());
        if (r.chance(2, 3)) take();
    }
    w->flush(); flush(); while (!q.empty()) take(); take();
    delete w; delete d;
    evaluated(1); distinct(mix(mix(bs, t), n)); ev("histories of large boxes"); ev("records got from large boxes", n); if (deep > 65535) ev("boxes filled beyond 65535 bytes");
    if (want_sample()) sample("%s: %llu records delivered, %llu boxes discarded", what.c_str(), (unsigned long long) n, (unsigned long long) lost);
}
void vp_custom()
{
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = [](int) {}; sigaction(SIGUSR1, &a, 0);
    sh = shared<Shm>(); double end = now() + opt.num("budget", 1000);
    bool large = opt.num("big", 0) != 0;
    for (uint64_t i = 0; i < opt.cases && now() < end; ++i) { Rng r(mix(mix(opt.seed, opt.shard), mix(i, (uint64_t) opt.num("seedoff", 0)))); if (large) { if (i % 2) big_boxes(r); else big(r); } else crowd(r); }
}
