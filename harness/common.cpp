#include "common.hpp"
#include <dirent.h>
#include <sys/resource.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#endif
#endif
#ifdef VP_ASAN
#include <sanitizer/allocator_interface.h>
#endif

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerRunDriver(int *argc, char ***argv, int (*cb)(const uint8_t *, size_t));
#endif

namespace vp {

Opt opt;
Current *cur;

namespace {
struct Ev { const char *name; uint64_t n; };
Ev evs[256];
unsigned nevs;
uint64_t g_evals, g_sig;
bool g_mark;
std::unordered_set<uint64_t> *g_distinct;
uint64_t g_over;
const size_t distinct_cap = 150000;
std::vector<std::string> *g_samples;
uint64_t g_sample_next = 0;
pid_t main_pid;
bool finished;
}

void ev(const char *name, uint64_t n)
{
    for (unsigned i = 0; i < nevs; ++i) if (evs[i].name == name || !strcmp(evs[i].name, name)) { evs[i].n += n; return; }
    if (nevs < 256) { evs[nevs].name = strdup(name); evs[nevs].n = n; ++nevs; }
}
void sig(uint64_t h) { g_sig = mix(g_sig, h); }
void mark() { g_mark = true; }
void distinct(uint64_t h)
{
    if (g_distinct->size() < distinct_cap) g_distinct->insert(h);
    else ++g_over;
}
void evaluated(uint64_t n) { g_evals += n; }
bool want_sample() { return g_evals >= g_sample_next && g_samples->size() < 6; }
void sample(const char *f, ...)
{
    if (g_samples->size() >= 6) return;
    va_list ap; va_start(ap, f); char *p = 0;
    int n = vasprintf(&p, f, ap); va_end(ap);
    if (n >= 0) { g_samples->push_back(std::string(p, n > 600 ? 600 : n)); free(p); }
    g_sample_next = g_evals ? g_evals * 4 : 10;
}

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

std::string show(const void *p, size_t n, size_t max)
{
    std::string r = "'";
    const unsigned char *b = (const unsigned char *) p;
    for (size_t i = 0; i < n && i < max; ++i)
    {
        if (b[i] == '\\') r += "\\\\";
        else if (b[i] >= 32 && b[i] < 127) r += b[i];
        else { char t[8]; snprintf(t, sizeof t, "\\x%02x", b[i]); r += t; }
    }
    r += "'";
    if (n > max) r += fmt("...(%zu)", n);
    return r;
}

static void record(const char *key, const char *kind, const std::string &msg)
{
    std::string path = opt.out + ".viol";
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    std::string line = "{\"kind\":" + jstr(kind) + ",\"key\":" + jstr(key) + ",\"msg\":" + jstr(msg.substr(0, 4000));
    if (cur && cur->kind == 2) line += fmt(",\"index\":%llu", (unsigned long long) cur->index);
    if (cur && cur->kind == 1)
    {
        line += ",\"bytes\":\"";
        static const char h[] = "0123456789abcdef";
        for (uint32_t i = 0; i < cur->len && i < sizeof cur->data; ++i) { line += h[cur->data[i] >> 4]; line += h[cur->data[i] & 15]; }
        line += "\"";
    }
    line += "}\n";
    if (fd >= 0) { if (write(fd, line.data(), line.size()) < 0) { } close(fd); }
}

static void out2(const std::string &m)
{
    // standard error may have been redirected by the code under test
    std::string path = opt.out + ".msg";
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (fd >= 0) { if (write(fd, m.data(), m.size()) < 0) { } close(fd); }
}

void violation(const char *key, const char *f, ...)
{
    va_list ap; va_start(ap, f); char *p = 0;
    int n = vasprintf(&p, f, ap); va_end(ap);
    std::string m(p ? p : "", n < 0 ? 0 : n);
    record(key, "violation", m);
    out2("VIOLATION " + std::string(key) + ": " + m + "\n");
    if (getpid() == main_pid) save_stats();
    finished = true;
    _exit(77);
}
void finding(const char *key, const char *f, ...)
{
    va_list ap; va_start(ap, f); char *p = 0;
    int n = vasprintf(&p, f, ap); va_end(ap);
    std::string m(p ? p : "", n < 0 ? 0 : n);
    free(p);
    record(key, "violation", m);
    out2("FINDING " + std::string(key) + ": " + m + "\n");
}
void harness_error(const char *f, ...)
{
    va_list ap; va_start(ap, f); char *p = 0;
    int n = vasprintf(&p, f, ap); va_end(ap);
    std::string m(p ? p : "", n < 0 ? 0 : n);
    record("harness", "error", m);
    out2("HARNESS ERROR: " + m + "\n");
    finished = true;
    _exit(79);
}

void save_stats()
{
    if (getpid() != main_pid) return;
    std::string j = fmt("{\"evaluations\":%llu,\"distinct_over\":%llu,\"events\":{", (unsigned long long) g_evals, (unsigned long long) g_over);
    for (unsigned i = 0; i < nevs; ++i) j += (i ? "," : "") + jstr(evs[i].name) + fmt(":%llu", (unsigned long long) evs[i].n);
    j += "},\"samples\":[";
    for (size_t i = 0; i < g_samples->size(); ++i) j += (i ? "," : "") + jstr((*g_samples)[i]);
    j += "]}\n";
    write_file(opt.out + ".stats", j);
    std::string d;
    for (uint64_t h : *g_distinct) d.append((const char *) &h, 8);
    write_file(opt.out + ".distinct", d);
}

double now()
{
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
int open_fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d);
    return n - 3;
}
std::string read_file(const std::string &path)
{
    std::string r; char b[65536]; ssize_t n;
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
    close(fd);
    return r;
}
void write_file(const std::string &path, const std::string &s)
{
    int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t o = 0;
    while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
    close(fd);
}

// ---- CPU watchdog ------------------------------------------------------------------------
static volatile uint64_t g_tick_case;
static volatile int g_ticks;
static void on_prof(int)
{
    if (!cur) return;
    if (g_tick_case != cur->cases) { g_tick_case = cur->cases; g_ticks = 0; return; }
    if (++g_ticks >= opt.cpu_limit)
    {
        static const char m[] = "case used too much CPU\n";
        if (write(2, m, sizeof m - 1) < 0) { }
        _exit(78);
    }
}
static void arm()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, 0);
    struct itimerval it = { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &it, 0);
}

static size_t allocated()
{
#ifdef VP_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

static void finish_case()
{
    ++g_evals;
    if (g_mark) distinct(g_sig);
    g_mark = false;
    g_sig = 0;
}

template <class F> static void guarded(F run)
{
    ++cur->cases;
    g_mark = false; g_sig = 0;
    size_t a = allocated();
    bool smp = want_sample();
    size_t ns = g_samples->size();
    run();
    size_t b = allocated();
    if (b > a && opt.leaks)
    {
        // lazy one-time allocations and recorded samples do not repeat: run the case again
        (void) smp; (void) ns;
        uint64_t s = g_sig; bool m = g_mark;
        uint64_t sn = g_sample_next; g_sample_next = ~0ull;
        size_t grew = 0;
        for (int k = 0; k < 3; ++k)
        {
            size_t c = allocated();
            g_sig = 0;
            run();
            size_t d = allocated();
            grew = d > c ? d - c : 0;
            if (!grew) break;
        }
        g_sample_next = sn;
        if (grew) violation("leak", "the case leaves %zu bytes allocated each time it runs", grew);
        g_sig = s; g_mark = m;
    }
    finish_case();
}

static int fuzz_one(const uint8_t *d, size_t n)
{
    cur->kind = 1;
    cur->len = n < sizeof cur->data ? n : sizeof cur->data;
    memcpy(cur->data, d, cur->len);
    guarded([&] { In in(cur->data, cur->len); vp_case(in); });
    return 0;
}

static void at_end() { if (getpid() == main_pid && !finished) save_stats(); }

} // namespace vp

__attribute__((weak)) void vp_init() { }
__attribute__((weak)) void vp_case(vp::In &) { }
__attribute__((weak)) uint64_t vp_exh_count(bool) { return 0; }
__attribute__((weak)) void vp_exh(uint64_t) { }
__attribute__((weak)) void vp_custom() { vp::harness_error("no such phase"); }

int main(int argc, char **argv)
{
    using namespace vp;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        size_t e = a.find('=');
        std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
        if (k == "phase") opt.phase = v;
        else if (k == "out") opt.out = v;
        else if (k == "dir") opt.dir = v;
        else if (k == "seed") opt.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "cases") opt.cases = strtoull(v.c_str(), 0, 10);
        else if (k == "shard") opt.shard = strtoull(v.c_str(), 0, 10);
        else if (k == "shards") opt.shards = strtoull(v.c_str(), 0, 10);
        else if (k == "thorough") opt.thorough = v == "1";
        else if (k == "leaks") opt.leaks = atoi(v.c_str());
        else if (k == "cpu") opt.cpu_limit = atoi(v.c_str());
        else if (k == "replay") opt.replay = v;
        else if (k == "index") opt.is_index = v == "1";
        else opt.x[k] = v;
    }
    main_pid = getpid();
    g_distinct = new std::unordered_set<uint64_t>;
    g_samples = new std::vector<std::string>;
    g_samples->reserve(8);
    int fd = open((opt.out + ".cur").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Current))) { perror("cur"); return 79; }
    cur = (Current *) mmap(0, sizeof(Current), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (cur == MAP_FAILED) return 79;
    vp_init();

    if (opt.phase == "exh")
    {
        arm();
        uint64_t n = vp_exh_count(opt.thorough);
        for (uint64_t i = opt.shard; i < n; i += opt.shards)
        {
            cur->kind = 2; cur->index = i;
            guarded([&] { vp_exh(i); });
        }
    }
    else if (opt.phase == "rand")
    {
        arm();
        double end = now() + opt.num("budget", 100000);
        for (uint64_t i = 0; i < opt.cases && ((i & 15) || now() < end); ++i)
        {
            uint64_t s = mix(mix(opt.seed, opt.shard), i);
            cur->kind = 1;
            guarded([&] { cur->len = 0; Rng r(s); In in(&r, cur); vp_case(in); });
        }
    }
    else if (opt.phase == "replay")
    {
        opt.phase = opt.str("was", "replay");   // the phase decides how the bytes of a case are read
        arm();
        if (opt.is_index)
        {
            cur->kind = 2; cur->index = strtoull(opt.replay.c_str(), 0, 10);
            guarded([&] { vp_exh(cur->index); });
        }
        else
        {
            std::string d = read_file(opt.replay);
            fuzz_one((const uint8_t *) d.data(), d.size());
        }
    }
#ifdef VP_FUZZ
    else if (opt.phase == "fuzz")
    {
        arm();
        atexit(at_end);
        std::vector<std::string> av;
        av.push_back(argv[0]);
        av.push_back(fmt("-runs=%llu", (unsigned long long) opt.cases));
        av.push_back(fmt("-seed=%u", (unsigned) (mix(opt.seed, opt.shard + 77) & 0x7fffffff) | 1));
        av.push_back(fmt("-max_total_time=%ld", opt.num("budget", 100000)));
        av.push_back("-max_len=" + opt.str("maxlen", "512"));
        av.push_back("-len_control=" + opt.str("lenctl", "20"));
        av.push_back("-use_value_profile=1");
        av.push_back("-detect_leaks=0");
        av.push_back("-handle_segv=0"); av.push_back("-handle_bus=0"); av.push_back("-handle_abrt=0");
        av.push_back("-handle_ill=0"); av.push_back("-handle_fpe=0"); av.push_back("-handle_int=0");
        av.push_back("-handle_term=0"); av.push_back("-handle_xfsz=0"); av.push_back("-handle_usr1=0"); av.push_back("-handle_usr2=0");
        av.push_back("-timeout=0"); av.push_back("-rss_limit_mb=0"); av.push_back("-reload=0");
        av.push_back("-print_final_stats=0"); av.push_back("-verbosity=0");
        av.push_back("-artifact_prefix=" + opt.out + ".");
        std::vector<char *> cv;
        for (auto &s : av) cv.push_back(&s[0]);
        cv.push_back(0);
        int c = (int) av.size();
        char **v = cv.data();
        // seeds of the generator as a first corpus would only repeat the rand phase: start empty
        int rc = LLVMFuzzerRunDriver(&c, &v, fuzz_one);
        save_stats(); finished = true;
        return rc;
    }
#endif
    else
    {
        vp_custom();
    }
    save_stats();
    finished = true;
    return 0;
}
