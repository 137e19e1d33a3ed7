// C19: directory removal and file helpers.
//
// The code under test deletes files, so: (1) the work is done by a child process of an
// unprivileged user that owns nothing but a scratch directory, and (2) the destructive
// library calls are interposed: a target outside the tree being removed is recorded and
// refused, never executed.
#include "fds.hpp"
#include "vt.hpp"

#include <sse/schemes/utils/utils.hpp>

#include <algorithm>
#include <climits>
#include <dirent.h>
#include <errno.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>

// ------------------------------------------------------------- interposed calls
namespace guard {
static std::string                        root; // the tree that may be deleted ("" = anything under scratch)
static std::string                        scratch;
static std::vector<std::string>           outside; // refused targets
static std::map<std::string, int>         broken;  // absolute path -> errno
static uint64_t                           done = 0, faults = 0;
static bool                               active = false;
static std::string                        cwd, moved;

// absolute path of an entry, its last component not followed
static std::string absolute(int dirfd, const char* p)
{
    std::string s = p;
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    auto        c    = s.rfind('/');
    std::string dir  = c == std::string::npos ? "" : c == 0 ? "/" : s.substr(0, c);
    std::string leaf = c == std::string::npos ? s : s.substr(c + 1);
    std::string base;
    if (s[0] != '/') {
        if (dirfd == AT_FDCWD) base = "/proc/self/cwd/";
        else base = "/proc/self/fd/" + std::to_string(dirfd) + "/";
    }
    char b[PATH_MAX + 1];
    if (!realpath((base + dir).c_str(), b)) return "?" + base + s;
    std::string r = b;
    if (r != "/") r += "/";
    return r + leaf;
}
static bool under(const std::string& p, const std::string& d)
{
    return p == d || (p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/');
}
// 0: do it; otherwise errno
static int judge(int dirfd, const char* p)
{
    int         save = errno;
    std::string a    = absolute(dirfd, p);
    errno            = save;
    if (a[0] == '?') return 0; // nothing there: the kernel says so
    if (!under(a, scratch) || (active && !under(a, root))) {
        outside.push_back(a);
        return EPERM;
    }
    // other threads rely on the current directory while a tree is being removed
    if (active && !cwd.empty()) {
        char c[PATH_MAX];
        if (getcwd(c, sizeof c) && cwd != c) moved = c;
    }
    auto it = broken.find(a);
    if (it != broken.end()) {
        faults++;
        return it->second;
    }
    done++;
    return 0;
}
} // namespace guard

#define GUARD(dfd, p)                                                                                                  \
    if (int e = guard::judge(dfd, p)) {                                                                                \
        errno = e;                                                                                                     \
        return -1;                                                                                                     \
    }

extern "C" {
int unlink(const char* p) noexcept
{
    GUARD(AT_FDCWD, p)
    return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
}
int rmdir(const char* p) noexcept
{
    GUARD(AT_FDCWD, p)
    return static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
}
int unlinkat(int d, const char* p, int f) noexcept
{
    GUARD(d, p)
    return static_cast<int>(syscall(SYS_unlinkat, d, p, f));
}
int remove(const char* p) noexcept
{
    GUARD(AT_FDCWD, p)
    int r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, 0));
    if (r < 0 && errno == EISDIR) r = static_cast<int>(syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR));
    return r;
}
int rename(const char* a, const char* b) noexcept
{
    GUARD(AT_FDCWD, a)
    GUARD(AT_FDCWD, b)
    return static_cast<int>(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0));
}
int system(const char* c)
{
    guard::outside.push_back(std::string("system: ") + (c ? c : ""));
    return 127;
}
FILE* popen(const char* c, const char*)
{
    guard::outside.push_back(std::string("popen: ") + (c ? c : ""));
    return nullptr;
}
}

// the harness's own removal: follows nothing, stays below scratch
static void harness_rm(const std::string& p)
{
    struct stat s;
    if (p.compare(0, guard::scratch.size(), guard::scratch) || lstat(p.c_str(), &s)) return;
    if (S_ISDIR(s.st_mode)) {
        if (chmod(p.c_str(), 0700)) {}
        if (DIR* d = opendir(p.c_str())) {
            std::vector<std::string> n;
            while (auto* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name);
            closedir(d);
            for (auto& x : n) harness_rm(p + "/" + x);
        }
        syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), AT_REMOVEDIR);
    } else syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0);
}

struct Node
{
    mode_t      mode;
    std::string data;
    bool        operator==(const Node& o) const
    {
        return mode == o.mode && data == o.data;
    }
};
static void snap(const std::string& p, std::map<std::string, Node>& m)
{
    struct stat s;
    if (lstat(p.c_str(), &s)) return;
    Node n;
    n.mode = s.st_mode;
    if (S_ISLNK(s.st_mode)) {
        char    b[PATH_MAX];
        ssize_t k = readlink(p.c_str(), b, sizeof b);
        n.data    = std::string(b, k > 0 ? k : 0);
    } else if (S_ISREG(s.st_mode)) {
        int fd = open(p.c_str(), O_RDONLY);
        if (fd >= 0) {
            char    b[65536];
            ssize_t k;
            while ((k = read(fd, b, sizeof b)) > 0) n.data.append(b, k);
            close(fd);
        } else n.data = "size " + std::to_string(s.st_size);
    }
    m[p] = n;
    if (S_ISDIR(s.st_mode)) {
        if (DIR* d = opendir(p.c_str())) {
            while (auto* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) snap(p + "/" + e->d_name, m);
            closedir(d);
        }
    }
}

static std::string fname(vt::Rng& r)
{
    static const char* odd[] = {" ", "a b", "-rf", "*", "?", "a\nb", "\\", "'", "\"", "...", ".hidden", "..x", "~", "$HOME", "%s%n", "\xff\xfe", "\xc3\xa9", "a;b", "&", "|", "#", "--", "{}"};
    if (r.chance(35)) return odd[r.below(sizeof odd / sizeof *odd)];
    std::string s;
    size_t      n = r.chance(8) ? 255 : r.range(1, 12);
    for (size_t i = 0; i < n; i++) s += static_cast<char>('a' + r.below(26));
    return s;
}

struct Tree
{
    vt::Rng&                 r;
    std::string              out; // sentinel directory
    std::vector<std::string> dirs, files, all;
    unsigned                 links{0}, specials{0};
    explicit Tree(vt::Rng& rr) : r(rr)
    {
    }
    void file(const std::string& p)
    {
        int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0600);
        if (fd < 0) return;
        std::string c = r.bytes(r.chance(30) ? 0 : r.below(3000));
        if (write(fd, c.data(), c.size()) < 0) {}
        static const mode_t m[] = {0600, 0400, 0000, 0777, 04755};
        fchmod(fd, m[r.below(5)]);
        close(fd);
        files.push_back(p);
        all.push_back(p);
    }
    void link(const std::string& p)
    {
        std::string t;
        switch (r.below(9)) {
        case 0: t = out; break;                                    // outside directory
        case 1: t = out + "/sub"; break;                           // outside subdirectory
        case 2: t = out + "/f1"; break;                            // outside file
        case 3: t = ".."; break;                                   // upwards
        case 4: t = "."; break;                                    // cycle
        case 5: t = "/nonexistent/" + fname(r); break;             // dangling
        case 6: t = dirs.empty() ? "../.." : dirs[r.below(dirs.size())]; break;
        case 7: t = files.empty() ? "x" : files[r.below(files.size())]; break;
        default: t = p; break; // itself
        }
        if (symlink(t.c_str(), p.c_str()) == 0) {
            links++;
            all.push_back(p);
        }
    }
    void special(const std::string& p)
    {
        if (r.chance(60)) {
            if (mkfifo(p.c_str(), 0600)) return;
        } else {
            struct sockaddr_un a;
            if (p.size() >= sizeof a.sun_path) return;
            int s = socket(AF_UNIX, SOCK_STREAM, 0);
            memset(&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            strcpy(a.sun_path, p.c_str());
            int e = bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
            close(s);
            if (e) return;
        }
        specials++;
        all.push_back(p);
    }
    void fill(const std::string& d, unsigned depth, unsigned& budget)
    {
        dirs.push_back(d);
        unsigned n = r.chance(15) ? 0 : r.below(8);
        for (unsigned i = 0; i < n && budget; i++) {
            budget--;
            std::string p = d + "/" + fname(r);
            struct stat s;
            if (p.size() > 3500 || lstat(p.c_str(), &s) == 0) continue;
            switch (r.below(10)) {
            case 0:
            case 1:
            case 2:
                if (depth < 12 && mkdir(p.c_str(), 0700) == 0) {
                    all.push_back(p);
                    fill(p, depth + 1, budget);
                }
                break;
            case 3:
            case 4: link(p); break;
            case 5: special(p); break;
            case 6:
                // hard link to a file outside
                if (::link((out + "/f1").c_str(), p.c_str()) == 0) all.push_back(p);
                break;
            default: file(p); break;
            }
        }
    }
};

static void put(const std::string& p, const std::string& c)
{
    int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd < 0 || write(fd, c.data(), c.size()) < 0) {}
    if (fd >= 0) close(fd);
}

static void queries(vt::Rng& r, const std::string& p)
{
    struct stat s;
    std::string q = p;
    if (r.chance(20)) {
        auto c = q.rfind('/');
        q.insert(c, r.chance(50) ? "/." : "//");
    }
    bool ok = stat(q.c_str(), &s) == 0;
    bool e = sse::utility::exists(q), f = sse::utility::is_file(q), d = sse::utility::is_directory(q);
    VT_CHECK(e == ok, std::string("fs:exists"), "exists(%s) = %d", q.c_str(), e);
    VT_CHECK(f == (ok && S_ISREG(s.st_mode)), std::string("fs:is_file"), "is_file(%s) = %d", q.c_str(), f);
    VT_CHECK(d == (ok && S_ISDIR(s.st_mode)), std::string("fs:is_directory"), "is_directory(%s) = %d", q.c_str(), d);
    struct statvfs v;
    size_t         ps = sse::utility::device_page_size(q);
    if (!ok) VT_CHECK(ps == 0, std::string("fs:page-size"), "device_page_size of a missing path = %zu", ps);
    else if (statvfs(q.c_str(), &v) == 0) VT_CHECK(ps == v.f_bsize, std::string("fs:page-size"), "device_page_size = %zu", ps);
    vt::eval(4);
    vt::count("queries", 4);
}

static bool call_remove(const std::string& p, std::string& what)
{
    // 1: true, 0: exception
    guard::root = p;
    while (guard::root.size() > 1 && guard::root.back() == '/') guard::root.pop_back();
    char b[PATH_MAX + 1];
    // the parent of the root, resolved
    auto        c = guard::root.rfind('/');
    std::string parent = c == std::string::npos ? "." : guard::root.substr(0, c), leaf = c == std::string::npos ? guard::root : guard::root.substr(c + 1);
    if (realpath(parent.c_str(), b)) guard::root = std::string(b) + "/" + leaf;
    guard::active = true;
    bool ok       = false;
    try {
        ok = sse::utility::remove_directory(p);
        if (!ok) what = "returned false";
    } catch (std::exception& e) {
        what = e.what();
    }
    guard::active = false;
    return ok;
}

static void remove_case(long i, vt::Rng& r)
{
    std::string base = vt::opts().dir + "/c" + std::to_string(i);
    std::string out  = base + "/outside";
    mkdir(base.c_str(), 0700);
    mkdir(out.c_str(), 0700);
    mkdir((out + "/sub").c_str(), 0700);
    put(out + "/f1", "sentinel 1");
    put(out + "/sub/f2", "sentinel 2");
    put(base + "/victim.txt", "sibling");
    put(base + "/victim2", "sibling");
    std::string root = base + "/victim";
    if (r.chance(20)) root = base + "/" + fname(r);
    if (root == out || root == base + "/victim.txt" || root == base + "/victim2") root = base + "/victim";
    mkdir(root.c_str(), 0700);
    Tree     t(r);
    unsigned budget = r.chance(10) ? 400 : r.range(0, 60);
    t.out           = out;
    unsigned kind   = r.below(10); // 0-5 plain, 6 deep, 7 fault, 8 permissions, 9 missing
    t.fill(root, 0, budget);
    if (kind == 6) {
        std::string p = root;
        std::string c = std::string(1 + r.below(3), 'd');
        unsigned    n = r.range(20, 600);
        for (unsigned k = 0; k < n && p.size() + c.size() < 3800; k++) {
            p += "/" + c;
            if (mkdir(p.c_str(), 0700) == 0) t.all.push_back(p);
        }
        put(p + "/leaf", "x");
        vt::maximum("depth", n);
    }
    vt::begin_case(i, vt::fmt("remove kind=%u entries=%zu", kind, t.all.size()));
    vt::distinct(r.s);
    for (int q = 0; q < 10 && !t.all.empty(); q++) queries(r, t.all[r.below(t.all.size())]);
    queries(r, base + "/missing");
    queries(r, base + "/victim2/below-a-file");

    guard::broken.clear();
    guard::outside.clear();
    if (kind == 9) {
        std::map<std::string, Node> a, b;
        snap(base, a);
        std::string w;
        bool        ok = call_remove(root + "-missing", w);
        snap(base, b);
        VT_CHECK(ok, std::string("fs:missing"), "removing a missing path: %s", w.c_str());
        VT_CHECK(a == b, std::string("fs:missing-effect"), "removing a missing path changed something");
        vt::count("missing_removed");
    }
    if (kind == 9 || (kind < 6 && r.chance(15))) {
        // the path given is itself a link, or a file: nothing else goes
        std::string p = base + "/thing";
        unsigned    k = r.below(4);
        if (k == 0) put(p, "a file");
        else if (k == 1 && symlink(out.c_str(), p.c_str())) {}
        else if (k == 2 && symlink("outside/f1", p.c_str())) {}
        else if (k == 3 && symlink(root.c_str(), p.c_str())) {}
        std::map<std::string, Node> a, b;
        snap(out, a);
        snap(root, a);
        std::string w;
        bool        ok = call_remove(p, w);
        snap(out, b);
        snap(root, b);
        struct stat s;
        VT_CHECK(a == b, std::string("fs:link-followed"), "removing %s changed what it points to", k ? "a link" : "a file");
        if (ok) VT_CHECK(lstat(p.c_str(), &s) != 0, std::string("fs:not-removed"), "success reported, but the %s is still there", k ? "link" : "file");
        vt::count(k ? "links_given" : "files_given");
        unlink(p.c_str());
    }
    std::string bad;
    if (kind == 7 && !t.all.empty()) {
        static const int errs[] = {EIO, EBUSY, EPERM, EROFS};
        unsigned         n      = 1 + r.below(2);
        for (unsigned q = 0; q < n; q++) {
            bad                = t.all[r.below(t.all.size())];
            guard::broken[guard::absolute(AT_FDCWD, bad.c_str())] = errs[r.below(4)];
        }
        if (r.chance(10)) {
            bad                                                     = root;
            guard::broken[guard::absolute(AT_FDCWD, root.c_str())] = EBUSY;
        }
    }
    std::vector<std::string> locked;
    if (kind == 8 && geteuid() != 0) {
        for (unsigned q = 0; q < 2; q++) {
            std::string d = t.dirs[r.below(t.dirs.size())];
            if (d == root && r.chance(70)) continue;
            static const mode_t m[] = {0555, 0000, 0444, 0300, 0666};
            chmod(d.c_str(), m[r.below(5)]);
            locked.push_back(d);
        }
        vt::count("permission_cases");
    }
    std::map<std::string, Node> before, after;
    snap(out, before);
    snap(base + "/victim.txt", before);
    snap(base + "/victim2", before);
    auto fd0 = fds::snapshot();
    char cwd0[PATH_MAX], cwd1[PATH_MAX];
    if (!getcwd(cwd0, sizeof cwd0)) {}
    uint64_t    f0   = guard::faults;
    std::string path = root;
    if (r.chance(20)) path += "/";
    if (r.chance(15)) path = base + "//" + path.substr(base.size() + 1);
    // relative to the current directory
    bool rel = kind < 6 && r.chance(20);
    if (rel) {
        if (chdir(base.c_str())) {}
        path = path.substr(path.find_first_not_of('/', base.size()));
        if (path[0] == '-' || r.chance(50)) path = "./" + path;
    }
    std::string w;
    {
        char c[PATH_MAX];
        guard::cwd = getcwd(c, sizeof c) ? c : "";
        guard::moved.clear();
    }
    bool ok = call_remove(path, w);
    VT_CHECK(guard::moved.empty(), std::string("fs:cwd"), "the current directory was %s during the removal", guard::moved.c_str());
    guard::cwd.clear();
    if (rel) {
        char c2[PATH_MAX];
        if (!getcwd(c2, sizeof c2)) {}
        char rb[PATH_MAX];
        VT_CHECK(realpath(base.c_str(), rb) && !strcmp(rb, c2), std::string("fs:cwd"), "the current directory changed to %s", c2);
        if (chdir(cwd0)) {}
    }
    if (!getcwd(cwd1, sizeof cwd1)) {}
    VT_CHECK(!strcmp(cwd0, cwd1), std::string("fs:cwd"), "the current directory changed to %s", cwd1);
    std::string fdd = fds::diff(fd0, fds::snapshot());
    VT_CHECK(fdd.empty(), std::string("fs:descriptors"), "%s", fdd.c_str());
    VT_CHECK(guard::outside.empty(), std::string("fs:outside"), "asked to delete %s outside of %s", guard::outside.empty() ? "" : guard::outside[0].c_str(), root.c_str());
    // outermost first: an entry cannot be reached below a locked directory
    std::sort(locked.begin(), locked.end(), [](const std::string& a, const std::string& b) { return a.size() < b.size(); });
    for (auto& d : locked) {
        // not through a link
        struct stat s;
        if (lstat(d.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) chmod(d.c_str(), 0700);
    }
    snap(out, after);
    snap(base + "/victim.txt", after);
    snap(base + "/victim2", after);
    VT_CHECK(before == after, std::string("fs:outside-changed"), "something outside of the removed tree changed");
    struct stat s;
    bool        there = lstat(root.c_str(), &s) == 0;
    if (ok) VT_CHECK(!there, std::string("fs:not-removed"), "success reported, but the directory is still there (kind %u)", kind);
    else if (kind != 7 && kind != 8) vt::fail("fs:refused", "removal failed: " + w);
    if (!ok) VT_CHECK(there, std::string("fs:false-failure"), "failure reported, but the directory is gone: %s", w.c_str());
    if (kind == 7 && !guard::broken.empty()) {
        VT_CHECK(!ok, std::string("fs:unreported"), "an entry could not be removed, success reported");
        if (guard::faults > f0) vt::count("failures_injected");
        for (auto& e : guard::broken) {
            struct stat q;
            VT_CHECK(lstat(e.first.c_str(), &q) == 0, std::string("fs:bypassed"), "%s is gone", e.first.c_str());
        }
        // nothing is held: a second call finishes the work
        guard::broken.clear();
        std::string w2;
        bool        ok2 = call_remove(root, w2);
        VT_CHECK(ok2 && lstat(root.c_str(), &s) != 0, std::string("fs:retry"), "second removal: %s", w2.c_str());
    }
    if (kind == 8 && !ok) {
        std::string w2;
        bool        ok2 = call_remove(root, w2);
        VT_CHECK(ok2, std::string("fs:retry"), "second removal: %s", w2.c_str());
        vt::count("permission_failures");
    }
    vt::eval();
    vt::count("trees");
    vt::count("entries", t.all.size());
    vt::count("links", t.links);
    vt::count("specials", t.specials);
    if (ok) vt::count("removed");
    if (i < 3) vt::sample(vt::fmt("kind %u, %zu entries, %u links", kind, t.all.size(), t.links));
    harness_rm(base);
}

static void file_case(long i, vt::Rng& r)
{
    using namespace sse::utility;
    std::string base = vt::opts().dir + "/f" + std::to_string(i);
    mkdir(base.c_str(), 0700);
    vt::begin_case(i, "files");
    guard::root   = base;
    guard::active = true;
    guard::outside.clear();
    VT_CHECK(os_page_size() == static_cast<size_t>(sysconf(_SC_PAGE_SIZE)), std::string("fs:page-size"), "os_page_size");
    std::map<std::string, std::string> files; // regular files
    std::set<std::string>              dirs;
    auto                               fd0 = fds::snapshot();
    mode_t                             um  = umask(0);
    umask(um);
    for (unsigned k = 0; k < 40; k++) {
        std::string p = base + "/" + fname(r);
        if (!files.empty() && r.chance(30)) p = r.pick(files).first;
        if (!dirs.empty() && r.chance(15)) {
            auto it = dirs.begin();
            std::advance(it, r.below(dirs.size()));
            p = *it;
        }
        struct stat s;
        bool        there = lstat(p.c_str(), &s) == 0;
        switch (r.below(6)) {
        case 0: {
            static const mode_t ms[] = {0700, 0755, 0777, 0750};
            mode_t              m    = ms[r.below(4)];
            bool                ok   = create_directory(p, m);
            VT_CHECK(ok == !there, std::string("fs:create_directory"), "create_directory on %s path: %d", there ? "an existing" : "a new", ok);
            if (!there) {
                VT_CHECK(lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && (s.st_mode & 0777) == (m & ~um), std::string("fs:create_directory"), "created with mode %o instead of %o", s.st_mode & 0777, m & ~um);
                dirs.insert(p);
            }
            VT_CHECK(!create_directory(p + "/no/such/parent", 0700), std::string("fs:create_directory"), "created below a missing directory");
            break;
        }
        case 1: {
            bool ok  = remove_file(p);
            bool exp = there && !S_ISDIR(s.st_mode);
            VT_CHECK(ok == exp, std::string("fs:remove_file"), "remove_file: %d", ok);
            struct stat q;
            if (exp) VT_CHECK(lstat(p.c_str(), &q) != 0, std::string("fs:remove_file"), "the file is still there");
            else VT_CHECK((lstat(p.c_str(), &q) == 0) == there, std::string("fs:remove_file"), "a directory disappeared");
            if (exp) files.erase(p);
            break;
        }
        case 2: {
            // a link is removed, not its target
            if (there) break;
            std::string tgt = files.empty() ? "/nonexistent" : r.pick(files).first;
            if (symlink(tgt.c_str(), p.c_str())) break;
            queries(r, p);
            VT_CHECK(remove_file(p), std::string("fs:remove_file"), "a link");
            struct stat q;
            VT_CHECK(lstat(p.c_str(), &q) != 0, std::string("fs:remove_file"), "the link is still there");
            if (!files.empty()) VT_CHECK(lstat(tgt.c_str(), &q) == 0, std::string("fs:remove_file"), "the target of the link is gone");
            break;
        }
        default: {
            bool        isdir = there && S_ISDIR(s.st_mode);
            bool        dir_io = r.chance(25);
            int         fd = -1;
            std::string w;
            try {
                fd = open_fd(p, dir_io);
            } catch (std::exception& e) {
                w = e.what();
            }
            if (isdir) {
                VT_CHECK(fd < 0, std::string("fs:open_fd"), "opened a directory");
                if (fd >= 0) close(fd);
                break;
            }
            if (fd < 0) {
                // direct access is not offered by every file system
                int f2 = open(p.c_str(), O_RDWR | O_CREAT | (dir_io ? O_DIRECT : 0), 0644);
                VT_CHECK(f2 < 0, std::string("fs:open_fd"), "open_fd failed: %s", w.c_str());
                if (f2 >= 0) close(f2);
                break;
            }
            int fl = fcntl(fd, F_GETFL);
            VT_CHECK((fl & O_ACCMODE) == O_RDWR && !!(fl & O_DIRECT) == dir_io && !(fl & O_APPEND), std::string("fs:open_fd"), "descriptor flags %o", fl);
            std::string& c = files[p];
            VT_CHECK(file_size(fd) == static_cast<ssize_t>(c.size()), std::string("fs:file_size"), "file_size %zd, expected %zu", file_size(fd), c.size());
            VT_CHECK(lseek(fd, 0, SEEK_CUR) == 0, std::string("fs:open_fd"), "not positioned at the start");
            VT_CHECK(device_page_size(fd) == device_page_size(p), std::string("fs:page-size"), "by descriptor and by path");
            if (!dir_io) {
                std::string back(c.size(), '\0');
                VT_CHECK(pread(fd, &back[0], back.size(), 0) == static_cast<ssize_t>(c.size()) && back == c, std::string("fs:contents"), "opening changed the contents");
                std::string add = r.bytes(r.below(5000));
                uint64_t    off = r.chance(50) ? c.size() : r.below(c.size() + 1);
                if (pwrite(fd, add.data(), add.size(), off) == static_cast<ssize_t>(add.size())) {
                    if (c.size() < off + add.size()) c.resize(off + add.size());
                    c.replace(off, add.size(), add);
                }
                VT_CHECK(file_size(fd) == static_cast<ssize_t>(c.size()), std::string("fs:file_size"), "after writing");
            }
            close(fd);
            break;
        }
        }
        queries(r, p);
        vt::eval();
        vt::count("file_operations");
    }
    bool threw = false;
    try {
        file_size(-1);
    } catch (std::exception&) {
        threw = true;
    }
    VT_CHECK(threw, std::string("fs:file_size"), "the size of a bad descriptor");
    threw = false;
    try {
        int f = open_fd(base + "/no/such/dir", false);
        close(f);
    } catch (std::exception&) {
        threw = true;
    }
    VT_CHECK(threw, std::string("fs:open_fd"), "opened below a missing directory");
    for (auto& e : files) {
        std::map<std::string, Node> m;
        snap(e.first, m);
        VT_CHECK(m.count(e.first) && m[e.first].data == e.second, std::string("fs:contents"), "a file does not have its contents");
    }
    std::string fdd = fds::diff(fd0, fds::snapshot());
    VT_CHECK(fdd.empty(), std::string("fs:descriptors"), "%s", fdd.c_str());
    guard::active = false;
    vt::distinct(r.s);
    harness_rm(base);
}

int main(int argc, char** argv)
{
    auto& o = vt::opts();
    vt::init(argc, argv, false);
    char tmpl[] = "/tmp/vt-fs-XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    guard::scratch = tmpl;
    std::string out = o.out;
    // the unprivileged user needs the directory of the result for sanitizer logs
    std::string od = out.substr(0, out.rfind('/'));
    if (geteuid() == 0) {
        if (chown(tmpl, 65534, 65534)) {}
        if (od.find("/run/r") != std::string::npos && chown(od.c_str(), 65534, 65534)) {}
    }
    pid_t p = fork();
    if (p == 0) {
        if (geteuid() == 0) {
            if (setgroups(0, nullptr)) {}
            if (setgid(65534) || setuid(65534)) fprintf(stderr, "still privileged\n");
            prctl(PR_SET_DUMPABLE, 1);
        }
        if (chdir(tmpl)) return 2;
        std::thread(vt::watchdog).detach();
        vt::count(geteuid() ? "unprivileged" : "privileged");
        o.dir = tmpl;
        o.out = std::string(tmpl) + "/out.json";
        bool t = o.thorough;
        if (o.mode == "c19") {
            vt::run_cases(t ? 12000 : 800, remove_case);
            vt::run_cases(t ? 4000 : 240, file_case);
        } else return 2;
        return vt::finish();
    }
    int st = 0;
    while (waitpid(p, &st, WNOHANG) == 0) {
        vt::tick(); // the child has its own watchdog
        usleep(20000);
    }
    if (FILE* f = fopen((std::string(tmpl) + "/out.json").c_str(), "r")) {
        FILE*  g = fopen(out.c_str(), "w");
        char   b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, g);
        fclose(f);
        fclose(g);
    }
    harness_rm(tmpl);
    if (WIFSIGNALED(st)) {
        // keep the distinction for the driver
        signal(WTERMSIG(st), SIG_DFL);
        raise(WTERMSIG(st));
    }
    _exit(WEXITSTATUS(st));
}
