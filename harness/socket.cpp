// C31 address parsing against a strict model; sockets over loopback with every call failing in turn.
#include "common.hpp"
#include <coda/socket.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <thread>
using namespace vp;
using std::string;

// ---- faults: the n-th of these calls fails ------------------------------------------------
static int fail_at = -1, calls, fail_errno = EINVAL;
static string failed;
static bool fail(const char *n) { if (fail_at >= 0 && calls++ == fail_at) { failed = n; errno = fail_errno; return true; } return false; }
extern "C" {
int __real_socket(int, int, int); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int); int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_accept(int, struct sockaddr *, socklen_t *); int __real_accept4(int, struct sockaddr *, socklen_t *, int); int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_ioctl(int, unsigned long, void *); int __real_fcntl(int, int, void *);
int __wrap_socket(int a, int b, int c) { return fail("socket") ? -1 : __real_socket(a, b, c); }
int __wrap_bind(int a, const struct sockaddr *b, socklen_t c) { return fail("bind") ? -1 : __real_bind(a, b, c); }
int __wrap_listen(int a, int b) { return fail("listen") ? -1 : __real_listen(a, b); }
int __wrap_connect(int a, const struct sockaddr *b, socklen_t c) { return fail("connect") ? -1 : __real_connect(a, b, c); }
int __wrap_accept(int a, struct sockaddr *b, socklen_t *c) { return fail("accept") ? -1 : __real_accept(a, b, c); }
int __wrap_accept4(int a, struct sockaddr *b, socklen_t *c, int d) { return fail("accept4") ? -1 : __real_accept4(a, b, c, d); }
int __wrap_setsockopt(int a, int b, int c, const void *d, socklen_t e) { return fail("setsockopt") ? -1 : __real_setsockopt(a, b, c, d, e); }
int __wrap_ioctl(int a, unsigned long b, void *c) { return fail("ioctl") ? -1 : __real_ioctl(a, b, c); }
int __wrap_fcntl(int a, int b, void *c) { return fail("fcntl") ? -1 : __real_fcntl(a, b, c); }
}

// ---- parsing ------------------------------------------------------------------------------
static bool model(const string &s, uint32_t &addr)
{
    size_t i = 0; addr = 0;
    for (int k = 0; k < 4; ++k)
    {
        size_t b = i; unsigned v = 0; bool big = false;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9') { v = v * 10 + (unsigned) (s[i] - '0'); if (v > 255) { v = 255; big = true; } ++i; }
        if (i == b || big) return false;
        addr = addr << 8 | v;
        if (k < 3) { if (i >= s.size() || s[i] != '.') return false; ++i; }
    }
    return i == s.size();
}
static void parse(const string &s)
{
    Exact e(s); uint32_t w;
    bool ok = model(s, w);
    in_addr_t r = coda_inet_addr(e.p, e.n), x = ok ? htonl(w) : INADDR_NONE;
    CHECK(r == x, ok ? "address" : "accepted", "%s gives %08x, expected %08x", S(s), ntohl(r), ntohl(x));
    ev(ok ? "addresses accepted" : "texts refused");
    sig(hash(s)); if (!s.empty()) mark();
    if (want_sample() && ok) sample("%s -> %08x", S(s), ntohl(r));
}
static const char *const OCT[] = { "", "0", "1", "255", "256", "00", "007", "99999999999999999999", "18446744073709551617", "4294967297", "a", "-1", " 1", "1 ", "65536", "127", "340282366920938463463374607431768211457" };
static const unsigned NO = 17;
void vp_case(In &in)
{
    string s;
    switch (in.below(4))
    {
    case 0: s = fmt("%u.%u.%u.%u", in.u8(), in.u8(), in.u8(), in.u8()); break;
    case 1: { unsigned n = 1 + in.below(5); for (unsigned i = 0; i < n; ++i) s += (i ? "." : "") + string(in.pick(OCT)); break; }
    case 2: s = in.bytes(in.below(20), "0125.9"); break;
    default: s = in.bytes(in.len(40)); break;
    }
    if (opt.phase != "fuzz" && in.chance(1, 40))
    {
        // counts near the powers of two where a narrow counter wraps: digits of one number, numbers, dots
        static const unsigned W[] = { 8, 16, 32, 64, 128, 256, 256, 512, 1024, 32768, 65536, 65536 };
        unsigned w = W[in.below(12)] + in.below(7) - 2;
        switch (in.below(4))
        {
        case 0: { unsigned at = in.below(4); s = ""; for (unsigned k = 0; k < 4; ++k) s += (k ? "." : "") + (k == at ? string(w, '0') + (in.chance(1, 2) ? "7" : "") : fmt("%u", in.u8())); break; }
        case 1: s = "1"; for (unsigned k = 0; k < w; ++k) s += ".2"; break;
        case 2: s = "1.2.3.4" + string(w, in.chance(1, 2) ? '.' : '0'); break;
        default: s = string(w, "0.1"[in.below(3)]) + ".2.3.4"; break;
        }
        ev("texts of many digits or dots");
    }
    else if (in.chance(1, 3))
    {
        size_t at = in.below((unsigned) s.size() + 1);
        switch (in.below(4)) { case 0: s.insert(at, in.bytes(1)); break; case 1: if (at < s.size()) s.erase(at, 1); break; case 2: s.resize(at); break; default: s.insert(at, in.bytes(1, "0123456789.")); }
    }
    parse(s);
}
static const unsigned L = 8;
static uint64_t short_texts(bool th) { uint64_t n = 0, e = 1; for (unsigned i = 0; i <= (th ? 10 : L); ++i) { n += e; e *= 5; } return n; }
uint64_t vp_exh_count(bool th) { return (uint64_t) NO * NO * NO * NO + NO * NO * NO + 256 * 16 + short_texts(th); }
void vp_exh(uint64_t i)
{
    if (i < (uint64_t) NO * NO * NO * NO) { string s = OCT[i % NO]; i /= NO; for (int k = 0; k < 3; ++k) { s += string(".") + OCT[i % NO]; i /= NO; } parse(s); return; }
    i -= (uint64_t) NO * NO * NO * NO;
    if (i < NO * NO * NO) { parse(string(OCT[i % NO]) + "." + OCT[i / NO % NO] + "." + OCT[i / NO / NO]); parse(string("1.") + OCT[i % NO] + "." + OCT[i / NO % NO] + "." + OCT[i / NO / NO] + ".2"); return; }
    i -= NO * NO * NO;
    if (i < 256 * 16) { string s = "1.22.3.255"; size_t at = i / 256 % 11; s.insert(at, 1, (char) i); parse(s); return; }
    i -= 256 * 16;
    size_t n = 0; uint64_t e = 1; while (i >= e) { i -= e; e *= 5; ++n; }
    string s; while (n--) { s += "0259."[i % 5]; i /= 5; }
    parse(s);
}

// ---- sockets ------------------------------------------------------------------------------
static bool nonblk(int fd) { fail_at = -1; return __real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK; }
static string port_of(int fd) { struct sockaddr_in a; socklen_t n = sizeof(a); HCHECK(!getsockname(fd, (struct sockaddr *) &a, &n), "getsockname"); return fmt("%u", ntohs(a.sin_port)); }
static bool readable(int fd, int ms) { struct pollfd p = { fd, POLLIN, 0 }; return poll(&p, 1, ms) > 0; }
static void on_alarm(int) { }

// an address of this worker, so that workers do not take ports from each other
static string home() { return fmt("127.0.%u.1", 10 + (unsigned) opt.shard); }

static int listen_any(int backlog, int nb)
{
    for (int k = 0; k < 50; ++k) { int r = coda_listen(home().c_str(), "0", backlog, nb); if (r >= 0) return r; usleep(20000); }
    return -1;
}

// every value but zero asks for a call that does not block
static int mode(Rng &r, bool nb) { static const int v[] = { 1, 1, 1, 2, -1, 256, 65536 }; return nb ? v[r.below(7)] : 0; }

static void conversation(Rng &r)
{
    int fds = open_fds();
    bool ln = r.chance(1, 2), an = r.chance(1, 2), cn = r.chance(1, 2);
    string hs = fmt("127.0.%u.%u", 10 + (unsigned) opt.shard, 1 + (unsigned) r.below(9)); const char *host = hs.c_str();
    int l = coda_listen(host, "0", 8, mode(r, ln));
    CHECK(l >= 0, "listen", "listening on %s failed: %s", host, strerror(errno));
    CHECK(nonblk(l) == ln, "listen-mode", "the listening socket is %sblocking", nonblk(l) ? "non" : "");
    string port = port_of(l);
    int one = 0; socklen_t sl = sizeof(one); getsockopt(l, SOL_SOCKET, SO_ACCEPTCONN, &one, &sl);
    CHECK(one, "listen", "the socket does not listen");
    struct sockaddr_in la; sl = sizeof(la); getsockname(l, (struct sockaddr *) &la, &sl);
    CHECK(la.sin_addr.s_addr == inet_addr(host), "listen-host", "listening on %s instead of %s", inet_ntoa(la.sin_addr), host);
    if (ln)
    {
        struct in_addr ip; int a = coda_accept(l, &ip, mode(r, an));
        CHECK(a == -1 && (errno == EAGAIN), "accept-empty", "accepting with nobody waiting gives %d", a);
    }
    // a client, by the helper or from an address of its own
    int c; uint32_t from;
    if (r.chance(1, 2))
    {
        string pt = string(r.chance(1, 4) ? 1 + r.below(4) : 0, '0') + port;
        c = coda_connect(host, pt.c_str(), mode(r, cn));
        CHECK(c >= 0, "connect", "connecting to %s:%s failed: %s", host, port.c_str(), strerror(errno));
        CHECK(nonblk(c) == cn, "connect-mode", "the connected socket is %sblocking", nonblk(c) ? "non" : "");
        struct pollfd p = { c, POLLOUT, 0 }; poll(&p, 1, 2000);
        struct sockaddr_in me; sl = sizeof(me); getsockname(c, (struct sockaddr *) &me, &sl); from = me.sin_addr.s_addr;
    }
    else
    {
        c = socket(AF_INET, SOCK_STREAM, 0); cn = false;
        struct sockaddr_in b; memset(&b, 0, sizeof(b)); b.sin_family = AF_INET; from = b.sin_addr.s_addr = htonl(0x7f000000 + 2 + (uint32_t) r.below(100));
        HCHECK(!bind(c, (struct sockaddr *) &b, sizeof(b)) && !connect(c, (struct sockaddr *) &la, sizeof(la)), "client");
    }
    CHECK(readable(l, 3000), "connect", "no connection arrives");
    struct in_addr ip; ip.s_addr = 0x55555555;
    int a = coda_accept(l, &ip, mode(r, an));
    CHECK(a >= 0, "accept", "accepting failed: %s", strerror(errno));
    CHECK(nonblk(a) == an, "accept-mode", "the accepted socket is %sblocking, asked %d", nonblk(a) ? "non" : "", an);
    CHECK(ip.s_addr == from, "peer", "the peer is %08x, reported as %08x", ntohl(from), ntohl(ip.s_addr));
    // changing the mode later
    for (int k = 0; k < 3; ++k) { int v = (int) r.below(2); CHECK(!coda_set_nonblk(a, mode(r, v)) && nonblk(a) == (bool) v, "set-mode", "setting the mode to %d gives %d", v, nonblk(a)); }
    coda_set_nonblk(a, 1);
    { char b; int n = coda_unix_recv(a, &b, 1); CHECK(n == -1 && errno == EAGAIN, "recv-empty", "receiving nothing without blocking gives %d (%s)", n, strerror(errno)); }
    coda_set_nonblk(a, 0); coda_set_nonblk(c, 0);
    // data goes both ways unchanged
    string sent, got;
    for (int k = 0; k < 5; ++k)
    {
        string s; for (size_t n = 1 + r.below(4000); n--; ) s += (char) r.next();
        int n = coda_unix_send(c, &s[0], s.size());
        CHECK(n > 0 && (size_t) n <= s.size(), "send", "sending gives %d", n);
        sent += s.substr(0, (size_t) n);
    }
    while (got.size() < sent.size()) { Exact b((size_t) 1 + r.below(3000)); int n = coda_unix_recv(a, b.p, b.n); CHECK(n > 0 && (size_t) n <= b.n, "recv", "receiving gives %d", n); got.append(b.p, (size_t) n); }
    CHECK(got == sent, "data", "the data arrived changed");
    // a full buffer: without blocking sending says so at once, with blocking it waits for the reader
    if (r.chance(1, 4))
    {
        bool nb = r.chance(1, 2); coda_set_nonblk(c, nb); int small = 30000; setsockopt(c, SOL_SOCKET, SO_SNDBUF, &small, sizeof small); string big((size_t) 400000 + r.below(1000000), 0); for (size_t k = 0; k < big.size(); ++k) big[k] = (char) (k * 7 + (k >> 9));
        int hold = dup(a); size_t total = big.size(); bool whole = true; string why; uint64_t pause = r.below(20000);
        std::thread rd([&] { usleep((useconds_t) (3000 + pause)); std::vector<char> b(70000); size_t at = 0; while (at < total) { struct pollfd q = { hold, POLLIN, 0 }; if (poll(&q, 1, 20000) <= 0) { why = "no data arrives"; shutdown(hold, SHUT_RDWR); return; } int n = coda_unix_recv(hold, b.data(), b.size()); if (n <= 0) { why = "receiving fails"; shutdown(hold, SHUT_RDWR); return; } if (memcmp(b.data(), big.data() + at, (size_t) n)) whole = false; at += (size_t) n; } });
        size_t at = 0; uint64_t full = 0;
        while (at < total)
        {
            int n = coda_unix_send(c, &big[at], total - at);
            if (n < 0 && nb && errno == EAGAIN) { ++full; usleep(200); continue; }
            if (n <= 0) { why = fmt("a %sblocking send gives %d (%s) after %zu of %zu bytes", nb ? "non-" : "", n, strerror(errno), at, total); shutdown(c, SHUT_RDWR); break; }
            at += (size_t) n;
        }
        rd.join(); close(hold);
        CHECK(why.empty(), "send-full", "%s", why.c_str()); CHECK(whole, "data", "much data arrives changed");
        ev("bytes exchanged", total); ev(nb ? "non-blocking sends of more than fits" : "blocking sends of more than fits"); if (full) ev("sends refused by a full buffer", full);
        coda_set_nonblk(c, 0);
    }
    // the peer closes: receiving ends, and sending fails without a signal that kills
    if (r.chance(1, 2)) { struct linger g = { 1, 0 }; setsockopt(a, SOL_SOCKET, SO_LINGER, &g, sizeof(g)); }
    close(a);
    readable(c, 3000);
    { char b; int n = coda_unix_recv(c, &b, 1); CHECK(n == 0 || (n == -1 && errno == ECONNRESET), "recv-closed", "receiving from a closed peer gives %d (%s)", n, strerror(errno)); }
    int n = 0; char z[100] = { 0 };
    for (int k = 0; k < 200 && n >= 0; ++k) { n = coda_unix_send(c, z, sizeof(z)); usleep(k ? 500 : 0); }
    CHECK(n == -1 && (errno == EPIPE || errno == ECONNRESET), "send-closed", "sending to a closed peer gives %d (%s)", n, strerror(errno));
    close(c);
    // a connection closed from this side first: its remains hold the port for a minute, but not against listening again
    bool remains = r.chance(2, 3);
    if (remains)
    {
        int d = coda_connect(host, port.c_str(), 0); CHECK(d >= 0, "connect", "connecting to %s:%s again failed: %s", host, port.c_str(), strerror(errno));
        CHECK(readable(l, 3000), "connect", "no second connection arrives");
        int e = coda_accept(l, &ip, 0); CHECK(e >= 0, "accept", "accepting again failed: %s", strerror(errno));
        close(e); readable(d, 3000); char z1; coda_unix_recv(d, &z1, 1); close(d);
    }
    close(l);
    // the same port can be used again at once
    int again = -1;
    for (int k = 0; k < 60 && again < 0; ++k) { if (k) usleep(50000); again = coda_listen(host, (string(r.chance(1, 4) ? 1 + r.below(4) : 0, '0') + port).c_str(), 4, 0); }
    CHECK(again >= 0, "relisten", "listening again on %s:%s failed: %s", host, port.c_str(), strerror(errno));
    { CHECK(port_of(again) == port, "listen-port", "listening on port %s instead of %s", port_of(again).c_str(), port.c_str()); ev("ports used again at once"); if (remains) ev("ports used again over the remains of a connection"); close(again); }
    CHECK(open_fds() == fds, "fd-leak", "a conversation leaks a descriptor");
    ev("conversations"); ev("bytes exchanged", sent.size());
    distinct(mix(mix(ln, an), mix(cn, hash(port))));
    if (want_sample()) sample("host %s, listening %s, accepted %s, %zu bytes, then the peer closes", host, ln ? "non-blocking" : "blocking", an ? "non-blocking" : "blocking", sent.size());
}

static void failures(Rng &r)
{
    int fds = open_fds();
    int l = listen_any(4, 0); HCHECK(l >= 0, "listen");
    string port = port_of(l);
    int base = open_fds();
    // refusals of the system
    struct { const char *what; int r; } t[] = {
        { "a busy port", coda_listen(home().c_str(), port.c_str(), 4, (int) r.below(2)) },
        { "a bad listening address", coda_listen("256.1.1.1", "0", 4, 0) },
        { "a foreign listening address", coda_listen("8.8.8.8", "0", 4, 1) },
    };
    for (auto &x : t) CHECK(x.r == -1, "accepted", "listening on %s gives %d", x.what, x.r);
    CHECK(open_fds() == base, "fd-leak", "a refused listen leaks a descriptor");
    {
        int d = listen_any(4, 0); string dead = port_of(d); close(d);
        int c = coda_connect(home().c_str(), dead.c_str(), 0);
        CHECK(c == -1, "connected", "connecting to a closed port gives %d", c);
        CHECK(open_fds() == base, "fd-leak", "a refused connect leaks a descriptor");
    }
    {
        struct in_addr ip; int p[2]; HCHECK(!pipe(p), "pipe");
        CHECK(coda_accept(p[0], &ip, 0) == -1 && coda_accept(-1, &ip, 1) == -1, "accepted", "accepting on something else succeeds");
        CHECK(coda_set_nonblk(-1, 1) == -1 && coda_set_sckopt(p[0], SOL_SOCKET, SO_REUSEADDR, 1) == -1 && coda_set_socket_timeout(-1, 5) == -1, "option", "setting options of something else succeeds");
        char b; CHECK(coda_unix_recv(p[0], &b, 1) == -1 && coda_unix_send(-1, &b, 1) == -1, "accepted", "receiving or sending on something else succeeds");
        close(p[0]); close(p[1]);
    }
    // every call failing in turn
    for (int what = 0; what < 3; ++what) for (int nb = 0; nb < 2; ++nb)
    for (int k = 0; k < 20; ++k)
    {
        static const int en[] = { EINVAL, ENOBUFS, EADDRINUSE, ENOTSOCK, EMFILE };
        int c = -1;
        if (what == 2) { c = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in la; socklen_t sl = sizeof(la); getsockname(l, (struct sockaddr *) &la, &sl); HCHECK(!connect(c, (struct sockaddr *) &la, sizeof(la)), "client"); }
        int before = open_fds();
        fail_errno = en[r.below(5)]; calls = 0; fail_at = k; failed = "";
        struct in_addr ip; errno = 0;
        int s = what == 0 ? coda_listen(home().c_str(), "0", 4, nb) : what == 1 ? coda_connect(home().c_str(), port.c_str(), nb) : coda_accept(l, &ip, nb);
        bool fired = !failed.empty(); fail_at = -1;
        static const char *const W[] = { "listen", "connect", "accept" };
        if (fired)
        {
            // nothing but -1 may come back unless the call was not needed after all
            CHECK(s == -1, "ignored-failure", "%s helper returned %d although %s failed", W[what], s, failed.c_str());
            CHECK(open_fds() == before, "fd-leak", "%s helper leaks a descriptor when %s fails", W[what], failed.c_str());
            ev("injected failures"); distinct(mix(hash(failed), mix((uint64_t) what, (uint64_t) nb)));
        }
        else CHECK(s >= 0, "failed", "%s helper fails: %s", W[what], strerror(errno));
        if (s >= 0) close(s);
        if (c >= 0) close(c);
        // take away what was left waiting
        coda_set_nonblk(l, 1); int q; while ((q = accept(l, 0, 0)) >= 0) close(q); coda_set_nonblk(l, 0);
        if (!fired) break;
    }
    close(l);
    CHECK(open_fds() == fds, "fd-leak", "failures leak a descriptor");
    ev("failure rounds");
}

static void timeouts(Rng &r)
{
    static const long T[] = { 1000, 50000, 250000, 999999, 1000000, 1100000, 1500000 };
    long t = T[r.below(7)];
    int p[2]; HCHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, p), "socketpair");
    int rc = coda_set_socket_timeout(p[0], t);
    CHECK(rc == 0, "timeout-refused", "setting a receive timeout of %ld us fails: %s", t, strerror(errno));
    double a = now(); char b[4]; errno = 0;
    int n = coda_unix_recv(p[0], b, 4); int e = errno;
    double d = now() - a;
    CHECK(n == -1 && (e == EAGAIN), "timeout", "a silent receive gives %d (%s)", n, strerror(e));
    CHECK(d > t / 1e6 * 0.9 - 0.005 && d < t / 1e6 + 4, "timeout-length", "a receive timeout of %ld us took %.4f s", t, d);
    // data within the timeout is received
    HCHECK(write(p[1], "abc", 3) == 3, "write");
    CHECK(coda_unix_recv(p[0], b, 4) == 3 && !memcmp(b, "abc", 3), "recv", "data within the timeout is not received");
    close(p[0]); close(p[1]);
    ev("timeouts measured"); distinct((uint64_t) t);
}
static void interrupted(Rng &r)
{
    // a receive that signals interrupt waits on for the data
    int p[2]; HCHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, p), "socketpair");
    struct sigaction sa, old; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, &old);
    pid_t pid = fork();
    if (!pid) { usleep(60000 + (useconds_t) r.below(40000)); if (write(p[1], "data!", 5) != 5) _exit(1); _exit(0); }
    struct itimerval it = { { 0, 5000 }, { 0, 5000 } }, off = { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_REAL, &it, 0);
    char b[8]; int n = coda_unix_recv(p[0], b, 8); int e = errno;
    setitimer(ITIMER_REAL, &off, 0);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
    sigaction(SIGALRM, &old, 0);
    CHECK(n == 5 && !memcmp(b, "data!", 5), "interrupted", "an interrupted receive gives %d (%s)", n, strerror(e));
    close(p[0]); close(p[1]);
    ev("receives interrupted by signals");
}

// a connect to a listener whose queue is full waits; interrupted by a signal, the helper either keeps waiting or reports
// failure, and a socket it returns as connected is connected
static void connect_interrupted(Rng &r)
{
    int fds = open_fds();
    int l = listen_any(0, 0); HCHECK(l >= 0, "listen"); string port = port_of(l);
    struct sockaddr_in la; socklen_t sl = sizeof(la); getsockname(l, (struct sockaddr *) &la, &sl);
    std::vector<int> fill; bool full = false;
    for (int k = 0; k < 8 && !full; ++k)
    {
        int c = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); HCHECK(c >= 0, "socket"); fill.push_back(c);
        int rc = connect(c, (struct sockaddr *) &la, sizeof(la)); struct pollfd p = { c, POLLOUT, 0 };
        if (rc < 0 && poll(&p, 1, 60) == 0) full = true;
    }
    if (full)
    {
        struct sigaction sa, old; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, &old);
        struct itimerval it = { { 0, 20000 }, { 0, 20000 + (suseconds_t) r.below(30000) } }, off = { { 0, 0 }, { 0, 0 } };
        int before = open_fds();
        std::thread later([&] { sigset_t m; sigfillset(&m); pthread_sigmask(SIG_BLOCK, &m, 0); usleep(300000); struct sockaddr_in q; socklen_t n = sizeof q; for (int k = 0; k < 4; ++k) { struct pollfd p = { l, POLLIN, 0 }; if (poll(&p, 1, 20) > 0) { int a = accept(l, (struct sockaddr *) &q, &n); if (a >= 0) close(a); } } });
        setitimer(ITIMER_REAL, &it, 0); errno = 0;
        int c = coda_connect(home().c_str(), port.c_str(), 0), e = errno;
        setitimer(ITIMER_REAL, &off, 0); later.join(); sigaction(SIGALRM, &old, 0);
        if (c >= 0) { struct sockaddr_in q; socklen_t n = sizeof q; CHECK(!getpeername(c, (struct sockaddr *) &q, &n), "connect-interrupted", "an interrupted connect returns a socket that is not connected"); close(c); ev("interrupted connects that went on"); }
        else { CHECK(c == -1, "connect-interrupted", "an interrupted connect returns %d (%s)", c, strerror(e)); ev("interrupted connects reported"); }
        CHECK(open_fds() == before, "fd-leak", "an interrupted connect leaks a descriptor");
    }
    for (int c : fill) close(c);
    close(l);
    CHECK(open_fds() == fds, "fd-leak", "an interrupted connect leaves a descriptor");
}

void vp_custom()
{
    for (uint64_t i = 0; i < opt.cases; ++i)
    {
        Rng r(opt.seed * 7919 + i * 131 + opt.shard);
        evaluated(1);
        conversation(r);
        if (i % 4 == 0) failures(r);
        if (i % 10 == 0) timeouts(r);
        if (i % 10 == 5) interrupted(r);
        if (i % 30 == 7) connect_interrupted(r);
    }
}
void vp_init() { signal(SIGPIPE, SIG_DFL); }
