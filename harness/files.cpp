// C28 file helpers: creating paths, opening onto descriptors, mapping; every call compared with a model of the tree, the
// descriptor table and the mapped bytes, with each system call failing in turn.
#define VP_SYSWRAP_IMPL
#include "syswrap.hpp"
#include <coda/system.h>
#include <dirent.h>
using namespace vp;
using std::string;

static string root;       // scratch tree of the case
static string snapshot_at(const string &d, const string &rel)
{
    string r; DIR *h = opendir(d.c_str()); if (!h) return r;
    std::vector<string> names; while (struct dirent *e = readdir(h)) { string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(h); std::sort(names.begin(), names.end());
    for (auto &n : names)
    {
        struct stat st; if (lstat((d + "/" + n).c_str(), &st)) continue;
        r += rel + n + fmt(" %o %ld\n", st.st_mode, S_ISDIR(st.st_mode) ? 0l : (long) st.st_size);
        if (S_ISDIR(st.st_mode)) r += snapshot_at(d + "/" + n, rel + n + "/");
    }
    return r;
}
static string snapshot() { return snapshot_at(root, ""); }
static void remove_at(const string &d)
{
    DIR *h = opendir(d.c_str()); if (!h) return;
    std::vector<string> names; while (struct dirent *e = readdir(h)) { string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
    closedir(h);
    for (auto &n : names) { string p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) remove_at(p); else unlink(p.c_str()); }
    rmdir(d.c_str());
}
// descriptors and what they refer to
static std::map<int, string> table()
{
    std::map<int, string> t;
    for (int fd = 0; fd < 64; ++fd)
    {
        struct stat st; if (fstat(fd, &st)) continue;
        t[fd] = fmt("%lx:%lx:%x", (long) st.st_dev, (long) st.st_ino, fcntl(fd, F_GETFL) & (O_ACCMODE | O_APPEND));
    }
    return t;
}
static string show_table(const std::map<int, string> &t) { string s; for (auto &x : t) s += fmt("%d=%s ", x.first, x.second.c_str()); return s; }
static string name_of(In &in)
{
    static const char *const n[] = { "a", "b", "c", "file", "dir", ".", "..", "a b", "\xd0\x96", "..." };
    return in.chance(1, 12) ? string(1 + in.below(255), 'l') : n[in.below(10)];
}

// ---- coda_mkpath --------------------------------------------------------------------------
static bool is_dir(const string &p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }
static bool exists(const string &p) { struct stat st; return !lstat(p.c_str(), &st); }
static void tree(In &in)
{
    mkdir((root + "/dir").c_str(), 0755); write_file(root + "/file", "x"); mkdir((root + "/dir/b").c_str(), 0700);
    if (in.chance(1, 3)) { if (symlink("dir", (root + "/c").c_str())) { } }
    if (in.chance(1, 3)) write_file(root + "/dir/a", "data");
}
static void mkpath(In &in)
{
    tree(in);
    string path; bool rel = in.chance(1, 3);
    if (!rel) path = root + "/";
    unsigned n = in.below(6);
    for (unsigned k = 0; k < n; ++k)
    {
        string c = name_of(in); if (c == "..") c = "a";      // stay inside the scratch tree
        path += c + (in.chance(1, 8) ? string(1 + in.below(3), '/') : string("/"));
    }
    if (in.chance(3, 4)) path += in.chance(1, 6) ? "file" : "log";
    if (in.chance(1, 30)) path = in.chance(1, 2) ? "" : "x";
    if (in.chance(1, 12)) for (unsigned k = 10 + in.below(30); k--; ) path += "/" + string(150, 'd');
    if (in.chance(1, 30)) path = "/";
    ExactZ z(path);
    string before = snapshot();
    long fault = in.chance(1, 4) ? 1 + (long) in.below(6) : 0; int err = (int[]) { EACCES, ENOSPC, EROFS, EMLINK }[in.below(4)];
    // model: prefixes ending at each slash behind the first character
    std::vector<string> want; bool fail = false, unclear = false; long calls = 0;
    for (size_t i = 1; i < path.size() && !fail; ++i)
    {
        if (path[i] != '/') continue;
        string d = path.substr(0, i); ++calls;
        if (is_dir(d)) continue;
        if (std::find(want.begin(), want.end(), d) != want.end()) continue;
        string parent = d.substr(0, d.find_last_not_of('/') + 1); size_t s = parent.rfind('/');
        string name = s == string::npos ? parent : parent.substr(s + 1), up = s == string::npos ? string(".") : s == 0 ? string("/") : parent.substr(0, s);
        if (exists(d))
        {
            // a file is in the way: a directory wanted below it cannot be made (whether the file itself counts is left open)
            size_t next = path.find_first_not_of("/", i); fail = true;
            unclear = next == string::npos || path.find('/', next) == string::npos || path.compare(next, 2, "./") == 0;
            if (!unclear) ev("directories wanted below a file"); continue;
        }
        if (name.size() > 255 || d.size() >= 4096) { fail = true; continue; }
        want.push_back(d);
    }
    int fds = open_fds(), rc; const char *failed; errno = 0;
    { Sys s(fault, err); rc = coda_mkpath(z.p); failed = s.failed(); }
    int e = errno;
    CHECK(string(z.p) == path, "argument", "the path %s is left as %s", S(path), S(string(z.p)));
    CHECK(open_fds() == fds, "fd-leak", "making %s leaks a descriptor", S(path));
    CHECK(rc == 0 || rc == -1, "return", "making %s returns %d", S(path), rc);
    if (!failed)
    {
        if (!unclear) CHECK(rc == (fail ? -1 : 0), "result", "making the directories of %s returns %d (%s), expected %d", S(path), rc, strerror(e), fail ? -1 : 0);
        for (auto &d : want) CHECK(is_dir(d), "missing", "directory %s of %s is missing", S(d), S(path));
    }
    else
    {
        // the failed step is reported, unless nothing needed to be made there
        bool all = true; for (auto &d : want) if (!is_dir(d)) all = false;
        CHECK(rc == -1 || all, "unreported", "making %s returns %d although %s failed with %s", S(path), rc, failed, strerror(err));
        ev("failed directory creations");
    }
    // nothing but the wanted directories is new, nothing old is changed
    std::vector<string> dirs;
    for (auto &d : want)
    {
        // without empty and dot components
        string n = d[0] == '/' ? "/" : ""; size_t at = 0;
        while (at <= d.size()) { size_t e = d.find('/', at); if (e == string::npos) e = d.size(); string c = d.substr(at, e - at); at = e + 1; if (!c.empty() && c != ".") n += (n.empty() || n == "/" ? "" : "/") + c; }
        if (is_dir(d) && std::find(dirs.begin(), dirs.end(), n) == dirs.end()) dirs.insert(dirs.begin(), n);
    }
    for (auto &d : dirs)
    {
        struct stat st; stat(d.c_str(), &st); CHECK((st.st_mode & 0700) == 0700, "mode", "directory %s cannot be used by its owner", S(d));
        CHECK(rmdir(d.c_str()) == 0, "extra", "directory %s is not as expected: %s", S(d), strerror(errno)); ev("directories made");
    }
    string after = snapshot();
    CHECK(after == before, "side-effect", "making the directories of %s changed the tree: %s", S(path), S(after));
    sig(hash(path)); sig((uint64_t) fault); if (!path.empty()) mark();
    if (want_sample() && !dirs.empty()) sample("path %s: %zu directories made", S(path), dirs.size());
}

// ---- coda_fdopen, coda_fdmove -------------------------------------------------------------
static void descriptors(In &in)
{
    tree(in);
    int keep2 = fcntl(2, F_DUPFD, 200), keep1 = fcntl(1, F_DUPFD, 200), keep0 = fcntl(0, F_DUPFD, 200);
    std::vector<int> mine; unsigned steps = 1 + in.below(12);
    // some descriptors, some holes
    for (unsigned k = in.below(6); k--; ) { int fd = open((root + "/file").c_str(), O_RDONLY); if (fd >= 0) mine.push_back(fd); }
    for (unsigned k = in.below(3); k--; ) close((int) in.below(3));
    for (size_t k = 0; k < mine.size(); ++k) if (in.chance(1, 3)) close(mine[k]);
    for (unsigned k = 0; k < steps; ++k)
    {
        auto before = table(); string snap = snapshot();
        int lowest = 0; while (before.count(lowest)) ++lowest;
        long fault = in.chance(1, 3) ? 1 + (long) in.below(3) : 0; int err = (int[]) { EMFILE, EBADF, EBUSY, EINTR }[in.below(4)];
        int rc; const char *failed = 0;
        if (in.chance(2, 3))
        {
            static const char *const names[] = { "/file", "/dir/new", "/none/x", "/dir", "/new" };
            string path = root + names[in.below(5)];
            int flags = (int[]) { O_RDONLY, O_RDWR, O_WRONLY | O_CREAT | O_APPEND, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_EXCL, O_WRONLY | O_TRUNC }[in.below(6)];
            int fd = in.chance(1, 5) ? -1 - (int) in.below(3) : in.chance(1, 8) ? 5000000 : (int) in.below(12);
            int probe = open(path.c_str(), flags & ~(O_CREAT | O_TRUNC | O_EXCL)); int perr = errno; if (probe >= 0) close(probe);
            bool can = flags & O_CREAT ? (probe >= 0 ? !(flags & O_EXCL) : perr == ENOENT && path.find("/none") == string::npos) : probe >= 0;
            { Sys s(fault, err); rc = coda_fdopen(fd, path.c_str(), flags); failed = s.failed(); }
            auto after = table();
            if (failed && !strcmp(failed, "close")) { HCHECK(rc == -1 || rc == fd, "close"); if (fd >= 0) { for (auto &x : after) if (x.first != fd) CHECK(before.count(x.first) && before[x.first] == x.second, "fd-leak", "a failing close leaves descriptor %d open", x.first); } continue; }
            bool ok = can && !failed && fd < 5000000;
            CHECK(rc == (ok ? fd < 0 ? lowest : fd : -1), "result", "opening %s (flags %x) onto %d returns %d, expected %d%s%s", S(path), flags, fd, rc, ok ? fd < 0 ? lowest : fd : -1, failed ? ", failed: " : "", failed ? failed : "");
            if (ok)
            {
                struct stat st; stat(path.c_str(), &st); string want = fmt("%lx:%lx:%x", (long) st.st_dev, (long) st.st_ino, flags & (O_ACCMODE | O_APPEND));
                CHECK(after[rc] == want, "target", "descriptor %d refers to %s, expected %s", rc, after[rc].c_str(), want.c_str());
                before[rc] = want; if (fd < 0) mine.push_back(rc); ev(fd < 0 ? "files opened on a fresh descriptor" : "files opened onto a descriptor");
                if (flags & O_CREAT) CHECK((st.st_mode & 0600) == 0600, "mode", "the new file has mode %o", st.st_mode);
            }
            else ev("failed openings");
            CHECK(after == before, ok ? "others" : "fd-leak", "opening %s onto %d (returned %d, %s failed) changed other descriptors: %s, expected %s", S(path), fd, rc, failed ? failed : "nothing", show_table(after).c_str(), show_table(before).c_str());
            sig(hash(path)); sig((uint64_t) flags); sig((uint64_t) fd);
        }
        else
        {
            int fd = in.chance(1, 6) ? 40 : (int) in.below(10), nd = in.chance(1, 5) ? -1 - (int) in.below(2) : in.chance(1, 10) ? 5000000 : (int) in.below(12);
            bool open_ = before.count(fd) > 0; if (fd == 2 || fd >= 200) open_ = before.count(fd) > 0;
            { Sys s(fault, err); rc = coda_fdmove(fd, nd); failed = s.failed(); }
            auto after = table();
            if (failed && !strcmp(failed, "close")) continue;
            if (nd < 0 || fd == nd) { CHECK(rc == fd && after == before, "result", "moving %d to %d returns %d", fd, nd, rc); continue; }
            bool ok = open_ && !failed && nd < 5000000;
            CHECK(rc == (ok ? nd : -1), "result", "moving %d to %d returns %d", fd, nd, rc);
            if (ok) { before[nd] = before[fd]; before.erase(fd); mine.push_back(nd); ev("descriptors moved"); }
            CHECK(after == before, "others", "moving %d to %d (returned %d) gives %s, expected %s", fd, nd, rc, show_table(after).c_str(), show_table(before).c_str());
            sig((uint64_t) fd); sig((uint64_t) nd);
        }
    }
    for (int fd = 3; fd < 64; ++fd) close(fd);
    dup2(keep0, 0); dup2(keep1, 1); dup2(keep2, 2); close(keep0); close(keep1); close(keep2);
    mark();
}

// ---- coda_mmap ----------------------------------------------------------------------------
static int maps() { FILE *f = fopen("/proc/self/maps", "r"); int n = 0, c; while ((c = getc(f)) != EOF) if (c == '\n') ++n; fclose(f); return n; }
// how the memory at p is mapped: writable or not, shared or private
static bool range_flags(const void *p, char &w, char &s)
{
    FILE *f = fopen("/proc/self/maps", "r"); unsigned long a, b; char fl[8], line[1000]; bool found = false;
    while (!found && fgets(line, sizeof line, f)) if (sscanf(line, "%lx-%lx %7s", &a, &b, fl) == 3 && (unsigned long) p >= a && (unsigned long) p < b) { w = fl[1]; s = fl[3]; found = true; }
    fclose(f); return found;
}
// files of more bytes than 32 bits count
static void huge_mapping(Rng &r, unsigned k)
{
    string path = root + "/huge"; static const uint64_t sizes[] = { 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100001000ull, 5000000000ull, 0x180000000ull, 0x80000000ull, 0x80000001ull, 8600000000ull };
    uint64_t n = sizes[k % 9] + (k >= 18 && r.chance(1, 3) ? r.below(5000) : 0); coda_strt a; bool resize = k < 18 ? k >= 9 : r.chance(1, 3); int fds = open_fds();
    int fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); HCHECK(fd >= 0, "open"); 
    if (!resize) { HCHECK(ftruncate(fd, (off_t) n) == 0 && pwrite(fd, "end", 3, (off_t) n - 3) == 3 && pwrite(fd, "start", 5, 0) == 5, "sparse file: %s", strerror(errno)); }
    close(fd); memset(&a, 0, sizeof a); if (resize) a.size = (size_t) n;
    int rc = coda_mmap(&a, resize ? PROT_READ | PROT_WRITE : PROT_READ, MAP_SHARED, path.c_str());
    CHECK(rc == 0, "result", "mapping a file of %llu bytes fails: %s", (unsigned long long) n, strerror(errno));
    struct stat st; stat(path.c_str(), &st);
    CHECK((uint64_t) st.st_size == n, "file", "mapping a file %s %llu bytes leaves it with %llu", resize ? "to be of" : "of", (unsigned long long) n, (unsigned long long) st.st_size);
    CHECK(a.size == n, "size", "mapping a file of %llu bytes gives size %zu", (unsigned long long) n, a.size);
    if (!resize) CHECK(!memcmp(a.data + n - 3, "end", 3) && !memcmp(a.data, "start", 5), "contents", "the mapped bytes of a file of %llu bytes are not those of the file", (unsigned long long) n);
    else { a.data[n - 1] = 'z'; char c = 0; fd = open(path.c_str(), O_RDONLY); CHECK(pread(fd, &c, 1, (off_t) n - 1) == 1 && c == 'z', "sharing", "the last byte of %llu does not reach the file", (unsigned long long) n); close(fd); }
    CHECK(coda_umap(&a) == 0, "unmap", "unmapping fails"); CHECK(open_fds() == fds, "fd-leak", "mapping a large file leaks a descriptor"); unlink(path.c_str());
    evaluated(1); distinct(mix(n, resize)); ev("files of 2 GiB and more mapped"); if (want_sample()) sample("file of %llu bytes mapped%s", (unsigned long long) n, resize ? ", resized" : "");
}
static void mapping(In &in)
{
    string path = root + "/m", data = in.bytes(in.chance(1, 4) ? (size_t) (4096u * in.below(4) + in.below(3)) : in.len(40000));
    if (in.chance(1, 10)) data = "";
    write_file(path, data);
    coda_strt a; int fds = open_fds(), rc; const char *failed = 0; string what;
    unsigned shape = in.below(6);
    if (shape == 0)
    {
        a.size = 1 + in.len(200000); a.data = (char *) 1;
        int prot = PROT_READ | (in.chance(1, 2) ? PROT_WRITE : 0), fl = in.chance(1, 2) ? MAP_PRIVATE : MAP_SHARED;
        long fault = in.chance(1, 5) ? 1 : 0; size_t n = a.size;
        { Sys s(fault, ENOMEM); rc = coda_mmap(&a, prot, fl, 0); failed = s.failed(); }
        CHECK(rc == (failed ? -1 : 0), "result", "an anonymous mapping of %zu returns %d", n, rc);
        if (!rc)
        {
            CHECK(a.size == n, "size", "an anonymous mapping of %zu has size %zu", n, a.size);
            for (size_t i = 0; i < n; ++i) if (a.data[i]) violation("zero", "byte %zu of an anonymous mapping is %d", i, a.data[i]);
            { char d, x; CHECK(range_flags(a.data, d, x) && d == (prot & PROT_WRITE ? 'w' : '-') && x == (fl == MAP_SHARED ? 's' : 'p'), "flags", "an anonymous mapping asked for with protection %d, %s is '%c%c'", prot, fl == MAP_SHARED ? "shared" : "private", d, x); }
            if (prot & PROT_WRITE) { memset(a.data, 7, n); CHECK(a.data[n - 1] == 7, "write", "not written"); }
            CHECK(coda_umap(&a) == 0, "unmap", "unmapping fails"); ev("anonymous mappings");
        }
        CHECK(open_fds() == fds, "fd-leak", "an anonymous mapping leaks a descriptor");
        sig(n); mark(); return;
    }
    bool resize = shape == 1 || shape == 2, simple = shape == 3;
    int prot = PROT_READ | (resize || in.chance(1, 2) ? PROT_WRITE : 0), fl = in.chance(1, 2) ? MAP_PRIVATE : MAP_SHARED;
    if (resize && in.chance(1, 6)) prot = PROT_READ;           // a file opened for reading cannot be resized
    size_t want = resize ? 1 + in.len(100000) : data.size();
    bool missing = in.chance(1, 10); string p = missing ? root + "/none" : path; if (missing && in.chance(1, 2)) p = root;
    memset(&a, 0xEE, sizeof a); a.size = resize ? want : 0; a.data = 0;
    long fault = in.chance(1, 4) ? 1 + (long) in.below(4) : 0; int err = (int[]) { EIO, ENOMEM, EACCES }[in.below(3)];
    { Sys s(fault, err); rc = simple ? coda_mmap_file(&a, p.c_str()) : coda_mmap(&a, prot, fl, p.c_str()); failed = s.failed(); }
    if (simple) { prot = PROT_READ; fl = MAP_PRIVATE; }
    bool ok = !missing && !failed && want && !(resize && !(prot & PROT_WRITE));
    if (failed && !strcmp(failed, "close")) ok = rc == 0;      // mapped, and the descriptor is gone: either answer will do
    CHECK(rc == (ok ? 0 : -1), "result", "mapping %s of %zu bytes (asked for %zu, protection %d, %s failed) returns %d", S(p), data.size(), resize ? want : 0, prot, failed ? failed : "nothing", rc);
    CHECK(open_fds() == fds, "fd-leak", "mapping (%s failed, returned %d) leaks a descriptor", failed ? failed : "nothing", rc);
    if (rc) { ev("failed mappings"); sig((uint64_t) fault); return; }
    string expect = data; expect.resize(want, '\0');
    CHECK(a.size == want, "size", "mapping a file of %zu bytes (asked for %zu) gives size %zu", data.size(), resize ? want : 0, a.size);
    CHECK(memcmp(a.data, expect.data(), want) == 0, "contents", "the mapped bytes are not those of the file");
    CHECK(read_file(path) == expect, "file", "mapping changed the file: it has %zu bytes, expected %zu", read_file(path).size(), want);
    if (prot & PROT_WRITE)
    {
        for (unsigned k = 0; k < 5; ++k) { size_t at = in.below((uint32_t) want); a.data[at] ^= 0x5a; if (fl == MAP_SHARED) expect[at] = (char) (expect[at] ^ 0x5a); }
        CHECK(read_file(path) == expect, "sharing", "a %s mapping %s the file", fl == MAP_SHARED ? "shared" : "private", fl == MAP_SHARED ? "does not change" : "changes");
        ev("mappings written");
    }
    CHECK(coda_umap(&a) == 0, "unmap", "unmapping fails"); ev(resize ? "files mapped with a new size" : "files mapped");
    sig(hash(data)); sig(want); sig((uint64_t) (prot * 8 + fl)); mark();
    if (want_sample()) sample("file of %zu bytes mapped as %zu, protection %d, %s", data.size(), want, prot, fl == MAP_SHARED ? "shared" : "private");
}

void vp_case(In &in)
{
    mkdir(root.c_str(), 0755); if (chdir(root.c_str())) { }
    switch (in.below(4)) { case 0: case 1: mkpath(in); break; case 2: descriptors(in); break; default: mapping(in); }
    if (chdir(opt.dir.c_str())) { }
    remove_at(root);
}
// all paths of up to 6 (thorough 8) characters over / a . b (relative to the scratch tree)
uint64_t vp_exh_count(bool t) { uint64_t n = 0; for (unsigned l = 0, p = 1; l <= (t ? 8u : 6u); ++l, p *= 4) n += p; return n; }
void vp_exh(uint64_t i)
{
    unsigned l = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= 4; ++l; }
    string path; for (unsigned k = 0; k < l; ++k, i /= 4) path += "/a.b"[i % 4];
    // an absolute path would leave the scratch tree, and so would ..
    if (path.find("..") != string::npos) return;
    bool abs = !path.empty() && path[0] == '/'; string full = abs ? root + path : path;
    mkdir(root.c_str(), 0755); if (chdir(root.c_str())) { }
    ExactZ z(full);
    int rc = coda_mkpath(z.p);
    CHECK(rc == 0, "result", "making the directories of %s fails: %s", S(path), strerror(errno));
    CHECK(full == z.p, "argument", "the path %s is left as %s", S(path), S(string(z.p)));
    std::set<string> want; std::vector<string> at;
    string cur; size_t b = 0;
    while (1)
    {
        size_t e = path.find('/', b); if (e == string::npos) break;
        string c = path.substr(b, e - b); b = e + 1;
        if (c.empty() || c == ".") continue;
        cur += (cur.empty() ? "" : "/") + c; want.insert(cur + fmt(" %o 0\n", S_IFDIR | (0755 & ~022)));
    }
    string w; std::vector<string> names; for (auto &x : want) w += x;
    string got = snapshot(); std::set<string> g; for (size_t s = 0; s < got.size(); ) { size_t e = got.find('\n', s); g.insert(got.substr(s, e - s + 1)); s = e + 1; }
    CHECK(g == want, "tree", "making the directories of %s gives %s, expected %s", S(path), S(got), S(w));
    if (chdir(opt.dir.c_str())) { } remove_at(root);
    sig(hash(path)); if (!path.empty()) mark(); ev("paths made");
}
void vp_init() { root = opt.dir + "/t"; umask(022); }
void vp_custom()
{
    mkdir(root.c_str(), 0755); if (chdir(root.c_str())) { }
    for (uint64_t i = 0; i < opt.cases; ++i) { Rng r(mix(mix(opt.seed, opt.shard), i)); huge_mapping(r, (unsigned) i); }
    if (chdir(opt.dir.c_str())) { } remove_at(root);
}
