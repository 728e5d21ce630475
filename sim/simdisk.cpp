// Simulated disk for the MIRIAD extension.
//
// Linked into the simulation build of aipy/_miriad with  ld --wrap=<syscall>, so every disk
// system call the extension makes lands here.  Paths under the simulated root ("/simfs") and
// descriptors opened from them are served from an in-memory file system; everything else is
// passed to libc.  The simulator (Python, through ctypes) owns: the fault plan, the disk
// capacity, the allocator faults, the mutation journal (from which the disk as it stood after any
// prefix of the completed calls, with the call in flight torn, is rebuilt) and the event log.
//
// No clock, no randomness and no thread is used here: the outcome of every call is a function of
// the calls made so far and of the plan.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>

using std::string; using std::vector; using std::map;
#define EXPORT extern "C" __attribute__((visibility("default")))

static const string ROOT = "/simfs";

struct Node { bool dir; string data; };
typedef map<string, Node> FS;
struct Fd { bool used; string path; long long pos; int flags; };
enum MutKind { M_CREATE = 0, M_TRUNC, M_WRITE, M_UNLINK, M_MKDIR, M_RMDIR, M_RENAME, M_SETSIZE };
struct Mut { int kind; string path; long long off; string data; long event; };

// call classes
enum { C_OPEN = 0, C_READ, C_WRITE, C_LSEEK, C_CLOSE, C_MKDIR, C_RMDIR, C_UNLINK, C_OPENDIR, C_READDIR,
       C_STAT, C_SYNC, C_RENAME, C_MALLOC, C_NUMPY, NCLASS };
static const char *CNAME[NCLASS] = {"open", "read", "write", "lseek", "close", "mkdir", "rmdir", "unlink",
    "opendir", "readdir", "stat", "sync", "rename", "malloc", "numpy"};

// fault kinds
enum { F_NONE = 0, F_ERR, F_SHORT };
struct Plan { int cls; long nth; int kind; int err; long arg; int sticky; long fired; };

static FS fs, base;
static map<int, Fd> fds;
static vector<Mut> journal;
static vector<string> events;
static vector<Plan> plan;
static long counts[NCLASS];
static long total_calls;
static long long capacity = -1;
static long capacity_hits;
static int fd_base = 1000;
static int logging = 1;
static int malloc_on = 0;
static long fds_peak;

static bool ours(const char *p) { return p && strncmp(p, ROOT.c_str(), ROOT.size()) == 0 &&
    (p[ROOT.size()] == '/' || p[ROOT.size()] == 0); }
static string norm(const char *p) {
    // collapse '//' and '/./' and strip a trailing slash
    vector<string> parts; string cur; string s(p);
    for (size_t i = 0; i <= s.size(); i++) {
        if (i == s.size() || s[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += s[i];
    }
    string o; for (auto &x : parts) o += "/" + x;
    return o.empty() ? "/" : o;
}
static string parent(const string &p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
static bool isdir(const string &p) { auto it = fs.find(p); return it != fs.end() && it->second.dir; }
static long long used_bytes() { long long n = 0; for (auto &k : fs) n += k.second.dir ? 512 : (long long)k.second.data.size(); return n; }
static void ev(const char *fmt, ...) {
    if (!logging) return;
    char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    events.push_back(b);
}
static void mut(int kind, const string &path, long long off = 0, const string &data = "") {
    journal.push_back({kind, path, off, data, (long)events.size()});
}
static void apply(FS &f, const Mut &m, long long limit) {
    switch (m.kind) {
    case M_CREATE: f[m.path] = Node{false, ""}; break;
    case M_TRUNC: f[m.path].data.clear(); break;
    case M_WRITE: {
        auto it = f.find(m.path); if (it == f.end()) break;
        string d = limit >= 0 ? m.data.substr(0, limit) : m.data;
        if ((long long)it->second.data.size() < m.off + (long long)d.size()) it->second.data.resize(m.off + d.size());
        it->second.data.replace(m.off, d.size(), d); break; }
    case M_UNLINK: f.erase(m.path); break;
    case M_MKDIR: f[m.path] = Node{true, ""}; break;
    case M_RMDIR: f.erase(m.path); break;
    case M_RENAME: { auto it = f.find(m.path); if (it != f.end()) { f[m.data] = it->second; f.erase(m.path); } break; }
    case M_SETSIZE: f[m.path].data.resize(m.off); break;
    }
}
static void domut(int kind, const string &path, long long off = 0, const string &data = "") {
    mut(kind, path, off, data); apply(fs, journal.back(), -1);
}

// Returns the plan entry that fires for this call, or NULL.
static Plan *fault(int cls) {
    long n = counts[cls]++; total_calls++;
    for (auto &p : plan) {
        if (p.cls == cls && (p.nth == n || (p.sticky && n >= p.nth))) { p.fired++; return &p; }
    }
    return NULL;
}
static const char *ename(int e) { return e == EIO ? "EIO" : e == ENOSPC ? "ENOSPC" : e == EINTR ? "EINTR" : e == EMFILE ? "EMFILE" :
    e == EACCES ? "EACCES" : e == ENOENT ? "ENOENT" : e == EEXIST ? "EEXIST" : e == ENOTEMPTY ? "ENOTEMPTY" : e == ENOMEM ? "ENOMEM" :
    e == EDQUOT ? "EDQUOT" : e == EROFS ? "EROFS" : "E?"; }

/* ---- interposed calls ------------------------------------------------------------------- */
#define REAL(ret, name, ...) extern "C" ret __real_##name(__VA_ARGS__); EXPORT ret __wrap_##name(__VA_ARGS__)

static int sim_open(const char *path, int flags) {
    string p = norm(path);
    Plan *f = fault(C_OPEN);
    if (f && f->kind == F_ERR) { ev("open %s !%s", p.c_str(), ename(f->err)); errno = f->err; return -1; }
    auto it = fs.find(p);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (it == fs.end()) {
        if (!(flags & O_CREAT)) { ev("open %s =ENOENT", p.c_str()); errno = ENOENT; return -1; }
        if (!isdir(parent(p))) { ev("open %s =ENOENT(dir)", p.c_str()); errno = ENOENT; return -1; }
        domut(M_CREATE, p);
    } else if (it->second.dir) {
        if (wr) { errno = EISDIR; return -1; }
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    else if ((flags & O_TRUNC) && wr && it->second.data.size()) domut(M_TRUNC, p);
    int fd = fd_base; while (fds.count(fd) && fds[fd].used) fd++;
    fds[fd] = Fd{true, p, 0, flags};
    if ((long)fds.size() > fds_peak) fds_peak = fds.size();
    ev("open %s fl=%s%s%s -> #%d", p.c_str(), wr ? "w" : "r", flags & O_CREAT ? "c" : "", flags & O_TRUNC ? "t" : "", fd);
    return fd;
}
extern "C" int __real_open(const char *, int, ...);
extern "C" int __real_open64(const char *, int, ...);
EXPORT int __wrap_open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (ours(path)) return sim_open(path, flags);
    return __real_open(path, flags, mode);
}
EXPORT int __wrap_open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0; va_end(ap);
    if (ours(path)) return sim_open(path, flags);
    return __real_open64(path, flags, mode);
}
REAL(int, creat, const char *path, mode_t mode) {
    if (ours(path)) return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC);
    return __real_creat(path, mode);
}
static Fd *get(int fd) { auto it = fds.find(fd); return it != fds.end() && it->second.used ? &it->second : NULL; }

static off_t sim_seek(Fd *d, off_t off, int wh, int fd) {
    Plan *f = fault(C_LSEEK);
    if (f && f->kind == F_ERR) { ev("lseek #%d !%s", fd, ename(f->err)); errno = f->err; return -1; }
    auto it = fs.find(d->path);
    long long size = it == fs.end() ? 0 : it->second.data.size();
    long long np = wh == SEEK_SET ? off : wh == SEEK_CUR ? d->pos + off : size + off;
    if (np < 0) { errno = EINVAL; return -1; }
    d->pos = np; return np;
}
REAL(off_t, lseek, int fd, off_t off, int wh) { Fd *d = get(fd); return d ? sim_seek(d, off, wh, fd) : __real_lseek(fd, off, wh); }
REAL(off_t, lseek64, int fd, off_t off, int wh) { Fd *d = get(fd); return d ? sim_seek(d, off, wh, fd) : __real_lseek64(fd, off, wh); }

static ssize_t sim_read(Fd *d, void *buf, size_t n, long long pos, int fd) {
    auto it = fs.find(d->path);
    Plan *f = fault(C_READ);
    if (f && f->kind == F_ERR) { ev("read %s@%lld+%zu !%s", d->path.c_str(), pos, n, ename(f->err)); errno = f->err; return -1; }
    if (it == fs.end()) { errno = EIO; return -1; }
    if (it->second.dir) { errno = EISDIR; return -1; }
    long long av = (long long)it->second.data.size() - pos; if (av < 0) av = 0;
    size_t k = (long long)n < av ? n : (size_t)av;
    bool sh = false;
    if (f && f->kind == F_SHORT && k > 0) { k = (size_t)(f->arg % (long)k); sh = true; }
    memcpy(buf, it->second.data.data() + pos, k);
    ev("read %s@%lld+%zu %s%zu", d->path.c_str(), pos, n, sh ? "!short" : "=", k);
    return (ssize_t)k;
}
REAL(ssize_t, read, int fd, void *buf, size_t n) {
    Fd *d = get(fd); if (!d) return __real_read(fd, buf, n);
    ssize_t k = sim_read(d, buf, n, d->pos, fd); if (k > 0) d->pos += k; return k;
}
REAL(ssize_t, pread, int fd, void *buf, size_t n, off_t off) { Fd *d = get(fd); return d ? sim_read(d, buf, n, off, fd) : __real_pread(fd, buf, n, off); }
REAL(ssize_t, pread64, int fd, void *buf, size_t n, off_t off) { Fd *d = get(fd); return d ? sim_read(d, buf, n, off, fd) : __real_pread64(fd, buf, n, off); }

static ssize_t sim_write(Fd *d, const void *buf, size_t n, long long pos, int fd) {
    Plan *f = fault(C_WRITE);
    if (f && f->kind == F_ERR) { ev("write %s@%lld+%zu !%s", d->path.c_str(), pos, n, ename(f->err)); errno = f->err; return -1; }
    if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    size_t k = n; const char *how = "=";
    if (f && f->kind == F_SHORT && k > 0) { k = (size_t)(f->arg % (long)k); how = "!short"; }
    if (pos + (long long)k > (1LL << 26)) { ev("write %s@%lld+%zu !EFBIG", d->path.c_str(), pos, n); errno = EFBIG; return -1; }
    if (capacity >= 0) {
        auto it0 = fs.find(d->path);
        long long size = it0 == fs.end() ? 0 : it0->second.data.size();
        long long grow = pos + (long long)k - size;
        long long room = capacity - used_bytes();
        if (grow > 0 && grow > room) {
            capacity_hits++;
            long long kk = size - pos + (room > 0 ? room : 0);
            if (kk <= 0) { ev("write %s@%lld+%zu !full", d->path.c_str(), pos, n); errno = ENOSPC; return -1; }
            if ((size_t)kk < k) { k = (size_t)kk; how = "!full-short"; }
        }
    }
    auto it = fs.find(d->path);
    if (it == fs.end()) { ev("write to unlinked %s", d->path.c_str()); return (ssize_t)k; }
    if (k) domut(M_WRITE, d->path, pos, string((const char *)buf, k));
    ev("write %s@%lld+%zu %s%zu", d->path.c_str(), pos, n, how, k);
    return (ssize_t)k;
}
REAL(ssize_t, write, int fd, const void *buf, size_t n) {
    Fd *d = get(fd); if (!d) return __real_write(fd, buf, n);
    if (d->flags & O_APPEND) { auto it = fs.find(d->path); if (it != fs.end()) d->pos = it->second.data.size(); }
    ssize_t k = sim_write(d, buf, n, d->pos, fd); if (k > 0) d->pos += k; return k;
}
REAL(ssize_t, pwrite, int fd, const void *buf, size_t n, off_t off) { Fd *d = get(fd); return d ? sim_write(d, buf, n, off, fd) : __real_pwrite(fd, buf, n, off); }
REAL(ssize_t, pwrite64, int fd, const void *buf, size_t n, off_t off) { Fd *d = get(fd); return d ? sim_write(d, buf, n, off, fd) : __real_pwrite64(fd, buf, n, off); }

REAL(int, close, int fd) {
    Fd *d = get(fd); if (!d) return __real_close(fd);
    Plan *f = fault(C_CLOSE);
    string p = d->path; fds.erase(fd);              // Linux: the descriptor is gone even when close() fails
    if (f && f->kind == F_ERR) { ev("close #%d %s !%s", fd, p.c_str(), ename(f->err)); errno = f->err; return -1; }
    ev("close #%d %s", fd, p.c_str());
    return 0;
}
static int sim_dup(Fd *d, int from) {
    Plan *f = fault(C_OPEN);
    if (f && f->kind == F_ERR) { ev("dup %s !%s", d->path.c_str(), ename(f->err)); errno = f->err; return -1; }
    Fd c = *d; int fd = from > fd_base ? from : fd_base; while (fds.count(fd)) fd++;
    fds[fd] = c; ev("dup %s -> #%d", c.path.c_str(), fd); return fd;
}
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __real_fcntl64(int, int, ...);
static int sim_fcntl(Fd *d, int cmd, long arg) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return sim_dup(d, (int)arg);
    return cmd == F_GETFL ? d->flags : 0;
}
EXPORT int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    Fd *d = get(fd); return d ? sim_fcntl(d, cmd, arg) : __real_fcntl(fd, cmd, arg);
}
EXPORT int __wrap_fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    Fd *d = get(fd); return d ? sim_fcntl(d, cmd, arg) : __real_fcntl64(fd, cmd, arg);
}
REAL(int, dup, int fd) { Fd *d = get(fd); return d ? sim_dup(d, 0) : __real_dup(fd); }
REAL(int, mkdir, const char *path, mode_t mode) {
    if (!ours(path)) return __real_mkdir(path, mode);
    string p = norm(path); Plan *f = fault(C_MKDIR);
    if (f && f->kind == F_ERR) { ev("mkdir %s !%s", p.c_str(), ename(f->err)); errno = f->err; return -1; }
    if (fs.count(p)) { ev("mkdir %s =EEXIST", p.c_str()); errno = EEXIST; return -1; }
    if (!isdir(parent(p))) { errno = ENOENT; return -1; }
    if (capacity >= 0 && used_bytes() + 512 > capacity) { capacity_hits++; ev("mkdir %s !full", p.c_str()); errno = ENOSPC; return -1; }
    domut(M_MKDIR, p); ev("mkdir %s", p.c_str()); return 0;
}
REAL(int, rmdir, const char *path) {
    if (!ours(path)) return __real_rmdir(path);
    string p = norm(path); Plan *f = fault(C_RMDIR);
    if (f && f->kind == F_ERR) { ev("rmdir %s !%s", p.c_str(), ename(f->err)); errno = f->err; return -1; }
    if (!isdir(p)) { errno = ENOENT; return -1; }
    string pre = p + "/";
    auto it = fs.lower_bound(pre);
    if (it != fs.end() && it->first.compare(0, pre.size(), pre) == 0) { ev("rmdir %s =ENOTEMPTY", p.c_str()); errno = ENOTEMPTY; return -1; }
    domut(M_RMDIR, p); ev("rmdir %s", p.c_str()); return 0;
}
static int sim_unlink(const char *path) {
    string p = norm(path); Plan *f = fault(C_UNLINK);
    if (f && f->kind == F_ERR) { ev("unlink %s !%s", p.c_str(), ename(f->err)); errno = f->err; return -1; }
    auto it = fs.find(p);
    if (it == fs.end() || it->second.dir) { errno = it == fs.end() ? ENOENT : EISDIR; return -1; }
    domut(M_UNLINK, p); ev("unlink %s", p.c_str()); return 0;
}
REAL(int, unlink, const char *path) { return ours(path) ? sim_unlink(path) : __real_unlink(path); }
REAL(int, remove, const char *path) { return ours(path) ? sim_unlink(path) : __real_remove(path); }
REAL(int, rename, const char *a, const char *b) {
    if (!ours(a)) return __real_rename(a, b);
    string p = norm(a), q = norm(b); Plan *f = fault(C_RENAME);
    if (f && f->kind == F_ERR) { ev("rename %s !%s", p.c_str(), ename(f->err)); errno = f->err; return -1; }
    if (!fs.count(p)) { errno = ENOENT; return -1; }
    domut(M_RENAME, p, 0, q);
    for (auto &k : fds) if (k.second.path == p) k.second.path = q;
    ev("rename %s %s", p.c_str(), q.c_str()); return 0;
}
REAL(int, ftruncate, int fd, off_t n) {
    Fd *d = get(fd); if (!d) return __real_ftruncate(fd, n);
    domut(M_SETSIZE, d->path, n); ev("ftruncate %s %lld", d->path.c_str(), (long long)n); return 0;
}
REAL(int, fsync, int fd) {
    Fd *d = get(fd); if (!d) return __real_fsync(fd);
    Plan *f = fault(C_SYNC); if (f && f->kind == F_ERR) { errno = f->err; return -1; }
    ev("fsync %s", d->path.c_str()); return 0;
}
REAL(int, fdatasync, int fd) { Fd *d = get(fd); return d ? __wrap_fsync(fd) : __real_fdatasync(fd); }
static int sim_stat(const char *path, struct stat *b) {
    string p = norm(path); Plan *f = fault(C_STAT);
    if (f && f->kind == F_ERR) { errno = f->err; return -1; }
    auto it = fs.find(p); if (it == fs.end()) { errno = ENOENT; return -1; }
    memset(b, 0, sizeof *b);
    b->st_mode = it->second.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    b->st_size = it->second.data.size(); return 0;
}
REAL(int, stat, const char *path, struct stat *b) { return ours(path) ? sim_stat(path, b) : __real_stat(path, b); }
REAL(int, lstat, const char *path, struct stat *b) { return ours(path) ? sim_stat(path, b) : __real_lstat(path, b); }
REAL(int, fstat, int fd, struct stat *b) {
    Fd *d = get(fd); if (!d) return __real_fstat(fd, b);
    return sim_stat(d->path.c_str(), b);
}
REAL(int, access, const char *path, int mode) {
    if (!ours(path)) return __real_access(path, mode);
    if (fs.count(norm(path))) return 0; errno = ENOENT; return -1;
}
extern "C" int __real_stat64(const char *, struct stat64 *);
extern "C" int __real_lstat64(const char *, struct stat64 *);
extern "C" int __real_fstat64(int, struct stat64 *);
EXPORT int __wrap_stat64(const char *path, struct stat64 *b) { return ours(path) ? sim_stat(path, (struct stat *)b) : __real_stat64(path, b); }
EXPORT int __wrap_lstat64(const char *path, struct stat64 *b) { return ours(path) ? sim_stat(path, (struct stat *)b) : __real_lstat64(path, b); }
EXPORT int __wrap_fstat64(int fd, struct stat64 *b) { Fd *d = get(fd); return d ? sim_stat(d->path.c_str(), (struct stat *)b) : __real_fstat64(fd, b); }
EXPORT int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
struct SimDir { vector<string> names; size_t i; struct dirent ent; };
static std::set<void *> simdirs;
REAL(DIR *, opendir, const char *path) {
    if (!ours(path)) return __real_opendir(path);
    string p = norm(path); Plan *f = fault(C_OPENDIR);
    if (f && f->kind == F_ERR) { ev("opendir %s !%s", p.c_str(), ename(f->err)); errno = f->err; return NULL; }
    if (!isdir(p)) { errno = ENOENT; return NULL; }
    SimDir *s = new SimDir; s->i = 0; s->names.push_back("."); s->names.push_back("..");
    string pre = p + "/";
    for (auto it = fs.lower_bound(pre); it != fs.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
        string r = it->first.substr(pre.size()); if (r.find('/') == string::npos) s->names.push_back(r);
    }
    simdirs.insert(s); ev("opendir %s", p.c_str()); return (DIR *)s;
}
REAL(struct dirent *, readdir, DIR *d) {
    if (!simdirs.count(d)) return __real_readdir(d);
    SimDir *s = (SimDir *)d; if (s->i >= s->names.size()) return NULL;
    memset(&s->ent, 0, sizeof s->ent);
    strncpy(s->ent.d_name, s->names[s->i++].c_str(), sizeof(s->ent.d_name) - 1); return &s->ent;
}
extern "C" struct dirent64 *__real_readdir64(DIR *);
EXPORT struct dirent64 *__wrap_readdir64(DIR *d) { return simdirs.count(d) ? (struct dirent64 *)__wrap_readdir(d) : __real_readdir64(d); }
REAL(int, closedir, DIR *d) {
    if (!simdirs.count(d)) return __real_closedir(d);
    simdirs.erase(d); delete (SimDir *)d; return 0;
}
/* ---- allocator ---------------------------------------------------------------------------- */
static bool deny() {
    if (!malloc_on) return false;
    Plan *f = fault(C_MALLOC);
    if (f && f->kind == F_ERR) { ev("malloc !ENOMEM"); errno = ENOMEM; return true; }
    return false;
}
// Fresh memory is filled with one fixed pattern and freed memory with another, so what the code leaves
// uninitialised or uses too late is at least repeatable; the bytes just past each live block hold a
// canary, and a block found with its canary changed counts as damaged.
#ifndef __SANITIZE_ADDRESS__
static const size_t PAD = 16;
static const unsigned char CANARY = 0xC7;
static int fresh = 0xA5, freed = 0xDD, npfresh = 0xFF, mask_c = 0;     // mask_c: turns the canary of blocks made from now on into another
static size_t malloc_max = (size_t)-1 - 64;
struct Blk { size_t n; unsigned char c; };
static std::unordered_map<void *, Blk> &blocks() { static auto *m = new std::unordered_map<void *, Blk>; return *m; }
static long damaged; static size_t damaged_size;
static bool intact(void *p, Blk b) {
    for (size_t i = 0; i < PAD; i++) if (((unsigned char *)p)[b.n + i] != b.c) return false;
    return true;
}
static void *adopt(void *p, size_t from, size_t n, int fill) {
    if (!p) return p;
    if (n > from) memset((char *)p + from, fill, n - from);
    memset((char *)p + n, CANARY ^ mask_c, PAD); blocks()[p] = Blk{n, (unsigned char)(CANARY ^ mask_c)}; return p;
}
// Forget the block; its size, or -1 where it is not one of ours.
static long long leave(void *p) {
    auto it = blocks().find(p); if (it == blocks().end()) return -1;
    size_t n = it->second.n; if (!intact(p, it->second)) { damaged++; damaged_size = n; ev("heap damaged past a block of %zu", n); }
    blocks().erase(it); return n;
}
extern "C" void *__real_malloc(size_t); extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t); extern "C" void __real_free(void *);
EXPORT void *__wrap_malloc(size_t n) { return deny() || n > malloc_max ? NULL : adopt(__real_malloc(n + PAD), 0, n, fresh); }
EXPORT void *__wrap_calloc(size_t a, size_t b) {
    size_t n; if (deny() || __builtin_mul_overflow(a, b, &n) || n > malloc_max) return NULL;
    return adopt(__real_malloc(n + PAD), 0, n, 0);
}
EXPORT void __wrap_free(void *p) {
    if (p) { long long n = leave(p); if (n > 0) memset(p, freed, n); }
    __real_free(p);
}
EXPORT void *__wrap_realloc(void *p, size_t n) {
    if (deny() || n > malloc_max) return NULL;
    if (p && n == 0) { __wrap_free(p); return NULL; }
    long long old = p ? leave(p) : 0;
    if (old < 0) return adopt(__real_realloc(p, n + PAD), n, n, fresh);
    void *q = adopt(__real_malloc(n + PAD), old, n, fresh);        // it always moves
    if (q && p) { memcpy(q, p, (size_t)old < n ? old : n); memset(p, freed, old); __real_free(p); }
    return q;
}
extern "C" void *__real__Znam(size_t); extern "C" void __real__ZdaPv(void *); 
EXPORT void *__wrap__Znam(size_t n) { return adopt(__real__Znam(n + PAD), 0, n, fresh); }
EXPORT void __wrap__ZdaPv(void *p) { if (p) { long long n = leave(p); if (n > 0) memset(p, freed, n); } __real__ZdaPv(p); }
EXPORT void __wrap__ZdaPvm(void *p, size_t) { __wrap__ZdaPv(p); }
// Blocks found damaged so far, those still live included.
EXPORT long sim_heap() {
    for (auto &b : blocks()) if (!intact(b.first, b.second)) {
        damaged++; damaged_size = b.second.n; memset((char *)b.first + b.second.n, b.second.c, PAD);
    }
    return damaged;
}
EXPORT long sim_heap_size() { return damaged_size; }
EXPORT long sim_heap_live() { return blocks().size(); }
// The same for the data of numpy's arrays (installed by disk.numpy_heap).  Fresh data reads as NaN or -1.
static long np_live;
EXPORT long sim_np_live() { return np_live; }
// From here on memory is filled with other values, so that what depends on them differs; larger requests are refused.
EXPORT void sim_fill(int a, int b, int c) { fresh = a; freed = b; npfresh = c; mask_c = 0x3C; }
EXPORT void sim_malloc_max(long n) { malloc_max = n; }
// Memory of arrays can run out as well, while np_on.
static int np_on;
EXPORT void sim_np(int on) { np_on = on; }
static bool np_deny() {
    if (!np_on) return false;
    Plan *f = fault(C_NUMPY);
    if (f && f->kind == F_ERR) { ev("numpy !ENOMEM"); return true; }
    return false;
}
EXPORT void *sim_np_malloc(void *, size_t n) { if (np_deny() || n > malloc_max) return NULL; np_live++; return adopt(__real_malloc(n + PAD), 0, n, npfresh); }
EXPORT void *sim_np_calloc(void *, size_t a, size_t b) {
    if (np_deny() || (a && b > malloc_max / a)) return NULL;
    void *p = __real_calloc(a * b + PAD, 1); np_live++; return adopt(p, a * b, a * b, 0);
}
EXPORT void *sim_np_realloc(void *, void *p, size_t n) {
    if (np_deny()) return NULL;
    long long old = p ? leave(p) : 0; return adopt(__real_realloc(p, n + PAD), old < 0 ? n : old, n, npfresh);
}
EXPORT void sim_np_free(void *, void *p, size_t) { if (p && leave(p) >= 0) np_live--; __real_free(p); }
#else
extern "C" void *__real_malloc(size_t); extern "C" void *__real_calloc(size_t, size_t); extern "C" void *__real_realloc(void *, size_t);
extern "C" void __real_free(void *); extern "C" void *__real__Znam(size_t); extern "C" void __real__ZdaPv(void *);
EXPORT void *__wrap_malloc(size_t n) { return deny() ? NULL : __real_malloc(n); }
EXPORT void *__wrap_calloc(size_t a, size_t b) { return deny() ? NULL : __real_calloc(a, b); }
EXPORT void *__wrap_realloc(void *p, size_t n) { return deny() ? NULL : __real_realloc(p, n); }
EXPORT void __wrap_free(void *p) { __real_free(p); }
EXPORT void *__wrap__Znam(size_t n) { return __real__Znam(n); }
EXPORT void __wrap__ZdaPv(void *p) { __real__ZdaPv(p); }
EXPORT void __wrap__ZdaPvm(void *p, size_t) { __real__ZdaPv(p); }
EXPORT long sim_heap() { return 0; }
EXPORT long sim_heap_size() { return 0; }
EXPORT long sim_heap_live() { return 0; }
EXPORT long sim_np_live() { return 0; }
EXPORT void sim_fill(int, int, int) {}
EXPORT void sim_malloc_max(long) {}
EXPORT void sim_np(int) {}
#endif

/* ---- control surface (ctypes) -------------------------------------------------------------- */
EXPORT void sim_reset() {
    fs.clear(); base.clear(); fds.clear(); journal.clear(); events.clear(); plan.clear();
    memset(counts, 0, sizeof counts); total_calls = 0; capacity = -1; capacity_hits = 0; fd_base = 1000; malloc_on = 0; fds_peak = 0;
    fs["/"] = Node{true, ""}; fs[ROOT] = Node{true, ""}; base = fs; logging = 1;
}
EXPORT void sim_fd_base(int b) { fd_base = b; }
EXPORT void sim_malloc(int on) { malloc_on = on; }
EXPORT void sim_capacity(long long c) { capacity = c; }
EXPORT long long sim_used() { return used_bytes(); }
EXPORT long sim_capacity_hits() { return capacity_hits; }
EXPORT void sim_plan_clear() { plan.clear(); }
// A fault on the nth call (from now) of the class.
EXPORT int sim_plan_add(int cls, long nth, int kind, int err, long arg, int sticky) {
    plan.push_back({cls, counts[cls] + nth, kind, err, arg, sticky, 0}); return (int)plan.size() - 1;
}
EXPORT long sim_plan_fired(int i) { return i < (int)plan.size() ? plan[i].fired : 0; }
EXPORT long sim_count(int cls) { return cls < 0 ? total_calls : counts[cls]; }
EXPORT const char *sim_class_name(int c) { return c >= 0 && c < NCLASS ? CNAME[c] : NULL; }
EXPORT long sim_nevents() { return events.size(); }
EXPORT const char *sim_event(long i) { return events[i].c_str(); }
EXPORT void sim_note(const char *s) { events.push_back(s); }
EXPORT void sim_events_clear() { events.clear(); }
EXPORT long sim_nfds() { return fds.size(); }
EXPORT const char *sim_fd_path(long k) { long i = 0; for (auto &f : fds) if (i++ == k) return f.second.path.c_str(); return NULL; }
// journal / crash images
EXPORT void sim_mark() { base = fs; journal.clear(); }
EXPORT long sim_njournal() { return journal.size(); }
EXPORT int sim_jkind(long i) { return journal[i].kind; }
EXPORT const char *sim_jpath(long i) { return journal[i].path.c_str(); }
EXPORT long long sim_jlen(long i) { return journal[i].data.size(); }
EXPORT long sim_jevent(long i) { return journal[i].event; }
static FS saved; static vector<Mut> saved_journal; static FS saved_base;
EXPORT void sim_stash() { saved_journal = journal; saved_base = base; saved = fs; }
// The disk after the first k journalled mutations of the stashed run, and `torn` bytes of the next.
EXPORT void sim_crash(long k, long long torn) {
    fs = saved_base; fds.clear(); plan.clear(); capacity = -1;
    for (long i = 0; i < k && i < (long)saved_journal.size(); i++) apply(fs, saved_journal[i], -1);
    if (torn > 0 && k < (long)saved_journal.size()) apply(fs, saved_journal[k], torn);
    base = fs; journal.clear();
}
EXPORT void sim_restore() { fs = saved; fds.clear(); plan.clear(); base = fs; journal.clear(); }
EXPORT int sim_exists(const char *p) { auto it = fs.find(norm(p)); return it == fs.end() ? 0 : it->second.dir ? 2 : 1; }
EXPORT long long sim_size(const char *p) { auto it = fs.find(norm(p)); return it == fs.end() ? -1 : (long long)it->second.data.size(); }
EXPORT long long sim_get(const char *p, char *buf, long long n) {
    auto it = fs.find(norm(p)); if (it == fs.end()) return -1;
    long long k = it->second.data.size() < (size_t)n ? it->second.data.size() : n; memcpy(buf, it->second.data.data(), k); return k;
}
EXPORT void sim_put(const char *p, const char *buf, long long n) { fs[norm(p)] = Node{false, string(buf, n)}; }
EXPORT void sim_mkdirs(const char *p) { string q = norm(p); while (q != "/" && !fs.count(q)) { fs[q] = Node{true, ""}; q = parent(q); } }
EXPORT void sim_rmtree(const char *p) {
    string q = norm(p), pre = q + "/";
    for (auto it = fs.begin(); it != fs.end();) if (it->first == q || it->first.compare(0, pre.size(), pre) == 0) it = fs.erase(it); else ++it;
}
EXPORT long sim_npaths() { return fs.size(); }
EXPORT const char *sim_path(long k) { auto it = fs.begin(); std::advance(it, k); return it->first.c_str(); }
// FNV-1a over the whole disk: identifies a disk state.
EXPORT unsigned long long sim_hash() {
    unsigned long long h = 1469598103934665603ULL;
    auto mix = [&](const string &s) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } h ^= 0xff; h *= 1099511628211ULL; };
    for (auto &k : fs) { mix(k.first); mix(k.second.dir ? "D" : "F"); mix(k.second.data); }
    return h;
}
EXPORT void sim_bump(const char *p, long long off, int x) { auto it = fs.find(norm(p)); if (it != fs.end() && off < (long long)it->second.data.size()) it->second.data[off] ^= (char)x; }
static_assert(sizeof(struct dirent) == sizeof(struct dirent64) && sizeof(struct stat) == sizeof(struct stat64), "LP64 only");
struct Init { Init() { sim_reset(); } } init_;
