// Simulated file system: everything under /sim lives here. Each file has its
// current contents (the page cache) and what is durable; names have a journal.
// The libc entry points are defined in this file and forward any other path
// to the kernel.
#include "internal.h"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fts.h>
#include <ftw.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <unistd.h>

namespace sim {
typedef uint64_t Ino;
struct POp { uint64_t off; bool trunc; uint64_t size; std::string data; };
struct Inode
{
    Ino      id;
    int      type; // 0 file 1 dir 2 symlink 3 special (fifo)
    std::string data;          // current
    std::string dur;           // durable
    std::vector<POp> pend;     // not yet durable
    std::map<std::string, Ino> ents, dur_ents;
    std::string target;
    int      nlink = 0;
    Ino      parent = 0;
    int      dev = 0;          // file system it is on
    bool     mount = false;    // something is mounted here
    int      remove_err = 0;   // removing (or, for a directory, reading) it fails
};
struct JOp { int kind; Ino dir; std::string name; Ino ino; Ino dir2; std::string name2; Ino over = 0; };
enum { J_SET, J_DEL, J_REN };
struct VfsState
{
    std::map<Ino, Inode> ino;
    Ino                  next = 2;
    std::vector<JOp>     journal;
    vfs::FaultCfg        f;
    uint64_t             fired = 0;
    std::vector<std::string> survive; // what a power failure does not concern
};
static inline VfsState& V() { return *g_p->vfs; }

struct OFile { bool used; Ino ino; int flags; uint64_t off; std::string path; size_t dirpos; int refs; };
static const int FD0 = 1 << 20;
static const int MAXFD = 4096;
static OFile     g_of[MAXFD];

void vfs_init()
{
    Scope s(AR_S);
    g_p->vfs = new VfsState();
    Inode& r = V().ino[1];
    r.id = 1; r.type = 1; r.nlink = 2; r.parent = 1;
}

// ------------------------------------------------------------ durability
static void jadd(JOp j) { V().journal.push_back(std::move(j)); }
static void japply(const JOp& j)
{
    auto& m = V().ino;
    switch (j.kind) {
    case J_SET: if (m.count(j.dir)) m[j.dir].dur_ents[j.name] = j.ino; break;
    case J_DEL: if (m.count(j.dir)) m[j.dir].dur_ents.erase(j.name); break;
    case J_REN:
        if (m.count(j.dir)) m[j.dir].dur_ents.erase(j.name);
        if (m.count(j.dir2)) m[j.dir2].dur_ents[j.name2] = j.ino;
        break;
    }
}
static void jcommit()
{
    for (auto& j : V().journal) japply(j);
    V().journal.clear();
}
static void apply_op(std::string& d, const POp& o)
{
    if (o.trunc) { d.resize(o.size, '\0'); return; }
    if (d.size() < o.off + o.data.size()) d.resize(o.off + o.data.size(), '\0');
    memcpy(&d[o.off], o.data.data(), o.data.size());
}
static void file_sync(Inode& n) { n.dur = n.data; n.pend.clear(); }

// Power loss: of what was not synced, any part may be lost.
static void harden(const std::string& path);
static void power_loss()
{
    VfsState& v = V();
    for (auto& p : v.survive) harden(p);
    size_t    keep = draw(T_CRASH, v.journal.size() + 1);
    for (size_t i = 0; i < keep; i++) japply(v.journal[i]);
    v.journal.clear();
    // one policy per crash: nothing / everything / a mix of the unsynced data
    uint64_t policy = draw(T_CRASH, 4);
    for (auto& kv : v.ino) {
        Inode& n = kv.second;
        if (n.type == 1) { n.ents = n.dur_ents; continue; }
        if (n.type != 0) continue;
        if (policy >= 1) {
            size_t cut = policy == 2 ? n.pend.size() : draw(T_CRASH, n.pend.size() + 1);
            for (size_t i = 0; i < n.pend.size(); i++) {
                POp& o = n.pend[i];
                bool take = policy == 3 ? draw(T_CRASH, 2) : i < cut;
                if (take) apply_op(n.dur, o);
                else if (!o.trunc && i == cut && o.data.size() > 512) {
                    // torn: some leading sectors
                    POp t = o;
                    t.data.resize(draw(T_CRASH, o.data.size() / 512 + 1) * 512);
                    if (!t.data.empty()) apply_op(n.dur, t);
                } else if (!o.trunc && policy == 3 && draw(T_CRASH, 4) == 3 && n.dur.size() < o.off + o.data.size())
                    n.dur.resize(o.off + o.data.size(), '\0'); // size made it, data did not
            }
        }
        n.data = n.dur;
        n.pend.clear();
    }
    // drop what no name refers to, fix link counts
    std::map<Ino, int> links;
    std::vector<Ino>   todo{1};
    std::set<Ino>      seen{1};
    while (!todo.empty()) {
        Ino d = todo.back();
        todo.pop_back();
        for (auto it = v.ino[d].ents.begin(); it != v.ino[d].ents.end();) {
            if (!v.ino.count(it->second)) { it = v.ino[d].ents.erase(it); continue; }
            Inode& c = v.ino[it->second];
            if (c.type == 1) {
                if (!seen.insert(it->second).second) { it = v.ino[d].ents.erase(it); continue; }
                c.parent = d;
                todo.push_back(it->second);
            }
            links[it->second]++;
            ++it;
        }
        v.ino[d].dur_ents = v.ino[d].ents;
    }
    for (auto it = v.ino.begin(); it != v.ino.end();) {
        if (it->first != 1 && !links.count(it->first)) it = v.ino.erase(it);
        else { it->second.nlink = links[it->first]; ++it; }
    }
}

void aio_at_crash(int kind);

void vfs_at_crash(int kind)
{
    aio_at_crash(kind);
    if (kind == CRASH_POWER) power_loss();
}
void vfs_boot(bool)
{
    for (auto& o : g_of) { o.used = false; o.refs = 0; }
    // files unlinked while open go away with the process
    Scope s(AR_S);
    for (auto it = V().ino.begin(); it != V().ino.end();) {
        if (it->first != 1 && it->second.nlink <= 0) it = V().ino.erase(it);
        else ++it;
    }
}

// ------------------------------------------------------------ paths
// the code under test has nothing to change outside of the simulated file system
static void outside(const char* op, const char* p)
{
    if (g_active && p && strncmp(p, "/dev/", 5)) fail("outside", "%s of %s, outside of the directory given", op, p);
}
// the working directory, if it is in the simulated file system: relative paths are, then
static Ino  g_cwd = 0;
static bool is_sim(const char* p) { return g_p && p && ((!strncmp(p, "/sim", 4) && (p[4] == 0 || p[4] == '/')) || (g_cwd && g_active && *p && *p != '/')); }

struct Res { Ino dir = 0; std::string name; Ino ino = 0; int err = 0; };
static Res resolve(const std::string& path, bool follow, Ino base = 0, int depth = 0)
{
    Res r;
    if (depth > 20) { r.err = ELOOP; return r; }
    auto&  m = V().ino;
    Ino    cur = 1, par = 1;
    size_t i = 0;
    if (path.empty()) { r.err = ENOENT; return r; }
    if (path[0] != '/' && !base) base = g_cwd;
    if (base && path[0] != '/') cur = par = base;
    else {
        if (path.compare(0, 4, "/sim")) { r.err = ENOENT; return r; }
        i = 4;
    }
    std::string name;
    r.dir = cur; r.ino = cur; r.name = "";
    while (i < path.size()) {
        while (i < path.size() && path[i] == '/') i++;
        if (i >= path.size()) break;
        size_t e = path.find('/', i);
        if (e == std::string::npos) e = path.size();
        name = path.substr(i, e - i);
        if (name.size() > 255) { r.err = ENAMETOOLONG; return r; }
        size_t rest = e;
        while (rest < path.size() && path[rest] == '/') rest++;
        bool last = rest >= path.size();
        i = e;
        if (r.ino == 0 || !m.count(r.ino)) { r.err = ENOENT; return r; }
        Inode& d = m[r.ino];
        if (d.type != 1) { r.err = ENOTDIR; return r; }
        par = r.ino;
        if (name == ".") continue;
        if (name == "..") { r.ino = d.parent; r.dir = m[r.ino].parent; r.name = ".."; continue; }
        r.dir = par; r.name = name;
        auto it = d.ents.find(name);
        if (it == d.ents.end()) {
            r.ino = 0;
            if (!last) { r.err = ENOENT; return r; }
            return r;
        }
        r.ino = it->second;
        Inode& n = m[r.ino];
        if (n.type == 2 && (!last || follow || e < path.size())) {
            std::string t = n.target + (last ? "" : path.substr(e));
            if (!t.empty() && t[0] == '/') return resolve(t, follow, 0, depth + 1);
            return resolve(t, follow, par, depth + 1);
        }
    }
    return r;
}

// ------------------------------------------------------------ faults
static const char* FN[] = {"read_eio", "read_short", "write_eio", "write_short", "write_enospc", "write_eintr",
                           "read_eintr", "open_fail", "fsync_fail", "meta_fail", "stat_fail", "readdir_fail", "read_corrupt"};
static bool fault(int k, const std::string& path)
{
    vfs::FaultCfg& f = V().f;
    if (!g_active || g_quiet || !f.enabled || !f.p[k] || V().fired >= f.max_faults) return false;
    if (f.only_path && path.find(f.only_path) == std::string::npos) return false;
    if (!path.compare(0, 10, "benchmark_")) return false; // the programs' own logs
    if (!chance(T_FAULT, f.p[k], 10000)) return false;
    V().fired++;
    fault_fired(FN[k]);
    SIM_LOG("  (%s on %s)", FN[k], path.c_str());
    return true;
}

// ------------------------------------------------------------ core operations
static int fdi(int fd)
{
    int i = fd - FD0;
    return (i >= 0 && i < MAXFD && g_p && g_of[i].used) ? i : -1;
}
static bool simfd(int fd) { return fd >= FD0; }
static int  new_fd(Ino ino, int flags, const std::string& path)
{
    for (int i = 0; i < MAXFD; i++)
        if (!g_of[i].used) {
            g_of[i].used = true; g_of[i].ino = ino; g_of[i].flags = flags; g_of[i].off = 0;
            g_of[i].path = path; g_of[i].dirpos = 0;
            return i + FD0;
        }
    errno = EMFILE;
    return -1;
}
static void gc(Ino i)
{
    auto it = V().ino.find(i);
    if (it == V().ino.end() || it->second.nlink > 0 || i == 1) return;
    for (auto& o : g_of) if (o.used && o.ino == i) return;
    // power loss may bring the name back until the journal is committed
    for (auto& j : V().journal) if (j.ino == i || j.over == i) return;
    V().ino.erase(it);
}

static void enter_op(const char* what, const std::string& path)
{
    if (!g_active) return;
    mix(what[0] * 131 + what[1]);
    SIM_LOG("%s %s", what, path.c_str());
    event_io();
    sched_point(60);
}

static int v_open(const std::string& path, int flags, mode_t)
{
    enter_op("open", path);
    Scope s(AR_S);
    if (fault(vfs::F_OPEN, path)) {
        static const int e[] = {EIO, EMFILE, EACCES, ENOSPC};
        errno = e[draw(T_FAULT, (flags & O_CREAT) ? 4 : 3)];
        return -1;
    }
    Res r = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    if (r.err) { errno = r.err; return -1; }
    if (r.ino == 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (path.back() == '/') { errno = EISDIR; return -1; }
        Ino    id = V().next++;
        Inode& n = V().ino[id];
        n.id = id; n.type = 0; n.nlink = 1; n.dev = V().ino[r.dir].dev;
        V().ino[r.dir].ents[r.name] = id;
        jadd({J_SET, r.dir, r.name, id, 0, ""});
        r.ino = id;
    } else {
        Inode& n = V().ino[r.ino];
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (n.type == 2) { errno = ELOOP; return -1; }
        if (n.type == 3) { errno = ENXIO; return -1; }
        if (n.type == 1 && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if (n.type != 1 && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
        if (n.type == 1 && n.remove_err) { errno = n.remove_err; return -1; }
        if ((flags & O_TRUNC) && n.type == 0 && !n.data.empty()) {
            n.data.clear();
            n.pend.push_back({0, true, 0, ""});
        }
    }
    return new_fd(r.ino, flags, path);
}

// one bit of what was read is wrong (the medium still holds the right data)
static void corrupt(void* p, size_t n, const std::string& path)
{
    if (!n || !fault(vfs::F_CORRUPT, path)) return;
    size_t at = draw(T_FAULT, draw(T_FAULT, 2) ? n : n / 4 + 1);
    static_cast<uint8_t*>(p)[at] ^= (uint8_t)(1 << draw(T_FAULT, 8));
}

static ssize_t v_pread(int i, void* buf, size_t len, uint64_t off, bool async = false)
{
    OFile& o = g_of[i];
    if ((o.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (!V().ino.count(o.ino)) { errno = EIO; return -1; }
    Inode& n = V().ino[o.ino];
    if (n.type == 1) { errno = EISDIR; return -1; }
    if (!async) {
        if (fault(vfs::F_READ_EIO, o.path)) { errno = EIO; return -1; }
        if (fault(vfs::F_READ_EINTR, o.path)) { errno = EINTR; return -1; }
    }
    if (o.flags & O_DIRECT) {
        if ((reinterpret_cast<uintptr_t>(buf) % 512) || len % 512 || off % 512) { errno = EINVAL; return -1; }
    }
    if (off >= n.data.size()) return 0;
    size_t k = std::min<uint64_t>(len, n.data.size() - off);
    if (!async && k > 1 && fault(vfs::F_READ_SHORT, o.path)) k = 1 + draw(T_FAULT, k - 1); // 0 is the end of the file
    heap_check(buf, k, true, "read into buffer");
    memcpy(buf, n.data.data() + off, k);
    corrupt(buf, k, o.path);
    return (ssize_t)k;
}

// the write itself, from whatever context
static ssize_t v_store(Inode& n, const void* buf, size_t len, uint64_t off)
{
    if (len == 0) return 0;
    if (off + len > (64ULL << 20)) { errno = EFBIG; return -1; }
    POp p{off, false, 0, std::string(static_cast<const char*>(buf), len)};
    apply_op(n.data, p);
    n.pend.push_back(std::move(p));
    if (n.pend.size() > 200000) file_sync(n);
    return (ssize_t)len;
}
static ssize_t v_pwrite(int i, const void* buf, size_t len, uint64_t off)
{
    OFile& o = g_of[i];
    if ((o.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (!V().ino.count(o.ino)) { errno = EIO; return -1; }
    Inode& n = V().ino[o.ino];
    if (o.flags & O_DIRECT) {
        if ((reinterpret_cast<uintptr_t>(buf) % 512) || len % 512 || off % 512) { errno = EINVAL; return -1; }
    }
    if (fault(vfs::F_WRITE_EINTR, o.path)) { errno = EINTR; return -1; }
    if (fault(vfs::F_WRITE_NOSPC, o.path)) { errno = ENOSPC; return -1; }
    if (fault(vfs::F_WRITE_EIO, o.path)) {
        // part of it may have reached the page cache
        size_t k = draw(T_FAULT, 3) ? draw(T_FAULT, len + 1) : 0;
        v_store(n, buf, k, off);
        errno = EIO;
        return -1;
    }
    size_t k = len;
    if (len > 1 && fault(vfs::F_WRITE_SHORT, o.path)) k = draw(T_FAULT, len);
    heap_check(buf, k, false, "write from buffer");
    return v_store(n, buf, k, off);
}

static int v_unlink(const std::string& path, bool dir, bool any, Ino base = 0)
{
    Scope s(AR_S);
    if (fault(vfs::F_META, path)) { static const int e[] = {EIO, EACCES, EBUSY}; errno = e[draw(T_FAULT, 3)]; return -1; }
    Res r = resolve(path, false, base);
    if (r.err) { errno = r.err; return -1; }
    if (!r.ino) { errno = ENOENT; return -1; }
    if (r.ino == 1 || r.name == "..") { errno = EBUSY; return -1; }
    Inode& n = V().ino[r.ino];
    if (any) dir = n.type == 1;
    if (n.remove_err) { errno = n.remove_err; return -1; }
    if (n.mount) { errno = EBUSY; return -1; }
    if (dir) {
        if (n.type != 1) { errno = ENOTDIR; return -1; }
        if (!n.ents.empty()) { errno = ENOTEMPTY; return -1; }
        n.nlink = 0;
    } else {
        if (n.type == 1) { errno = EISDIR; return -1; }
        n.nlink--;
    }
    V().ino[r.dir].ents.erase(r.name);
    jadd({J_DEL, r.dir, r.name, r.ino, 0, ""});
    gc(r.ino);
    return 0;
}

static int v_mkdir(const std::string& path, mode_t, Ino base = 0)
{
    Scope s(AR_S);
    if (fault(vfs::F_META, path)) { static const int e[] = {EIO, EACCES, ENOSPC}; errno = e[draw(T_FAULT, 3)]; return -1; }
    Res r = resolve(path, false, base);
    if (r.err) { errno = r.err; return -1; }
    if (r.ino) { errno = EEXIST; return -1; }
    Ino    id = V().next++;
    Inode& n = V().ino[id];
    n.id = id; n.type = 1; n.nlink = 2; n.parent = r.dir; n.dev = V().ino[r.dir].dev;
    V().ino[r.dir].ents[r.name] = id;
    jadd({J_SET, r.dir, r.name, id, 0, ""});
    return 0;
}

static void fill_stat(const Inode& n, struct stat* st)
{
    memset(st, 0, sizeof(*st));
    st->st_dev = 77 + n.dev;
    st->st_ino = n.id;
    st->st_nlink = n.nlink;
    st->st_mode = n.type == 1 ? (S_IFDIR | 0755) : n.type == 2 ? (S_IFLNK | 0777) : n.type == 3 ? (S_IFIFO | 0644) : (S_IFREG | 0644);
    st->st_size = n.type == 2 ? n.target.size() : n.data.size();
    st->st_blksize = 4096;
    st->st_blocks = (n.data.size() + 511) / 512;
}
static int v_stat(const std::string& path, struct stat* st, bool follow, Ino base = 0)
{
    Scope s(AR_S);
    if (fault(vfs::F_STAT, path)) { errno = draw(T_FAULT, 2) ? EACCES : EIO; return -1; }
    Res r = resolve(path, follow, base);
    if (r.err) { errno = r.err; return -1; }
    if (!r.ino) { errno = ENOENT; return -1; }
    fill_stat(V().ino[r.ino], st);
    return 0;
}
static int v_fsync(int i)
{
    Scope s(AR_S);
    OFile& o = g_of[i];
    if (fault(vfs::F_FSYNC, o.path)) {
        // like Linux: the dirty pages may be dropped from the write-back queue
        errno = EIO;
        return -1;
    }
    if (V().ino.count(o.ino)) { Inode& n = V().ino[o.ino]; if (n.type == 0) file_sync(n); }
    jcommit();
    return 0;
}
static int v_trunc(Inode& n, uint64_t size)
{
    if (size > (64ULL << 20)) { errno = EFBIG; return -1; }
    n.data.resize(size, '\0');
    n.pend.push_back({0, true, size, ""});
    return 0;
}
static int v_rename(const std::string& a, const std::string& b)
{
    Scope s(AR_S);
    if (fault(vfs::F_META, a)) { errno = EIO; return -1; }
    Res ra = resolve(a, false), rb = resolve(b, false);
    if (ra.err || rb.err) { errno = ra.err ? ra.err : rb.err; return -1; }
    if (!ra.ino) { errno = ENOENT; return -1; }
    if (ra.ino == rb.ino) return 0;
    Ino old = rb.ino;
    if (old) {
        Inode& n = V().ino[old];
        if (n.type == 1 && !n.ents.empty()) { errno = ENOTEMPTY; return -1; }
        n.nlink = n.type == 1 ? 0 : n.nlink - 1;
    }
    V().ino[ra.dir].ents.erase(ra.name);
    V().ino[rb.dir].ents[rb.name] = ra.ino;
    if (V().ino[ra.ino].type == 1) V().ino[ra.ino].parent = rb.dir;
    jadd({J_REN, ra.dir, ra.name, ra.ino, rb.dir, rb.name, old});
    if (old) gc(old);
    return 0;
}

// asynchronous I/O, called by aio.cpp when the device performs a request
int64_t vfs_aio_perform(int fd, bool write, void* buf, size_t len, uint64_t off, int64_t forced)
{
    Scope s(AR_S);
    int   i = fdi(fd);
    if (i < 0) return -EBADF;
    if (forced < 0) return forced;
    size_t want = forced >= 0 && (size_t)forced < len ? (size_t)forced : len;
    OFile& o = g_of[i];
    if (!V().ino.count(o.ino)) return -EIO;
    Inode& n = V().ino[o.ino];
    if (write) {
        if ((o.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        heap_check(buf, len, false, "asynchronous write from buffer");
        return v_store(n, buf, want, off);
    }
    heap_check(buf, len, true, "asynchronous read into buffer");
    if (off >= n.data.size()) return 0;
    size_t k = std::min<uint64_t>(want, n.data.size() - off);
    heap_check(buf, k, true, "asynchronous read into buffer");
    memcpy(buf, n.data.data() + off, k);
    return (int64_t)k;
}
int vfs_aio_validate(int fd)
{
    return fdi(fd) >= 0 ? 0 : -EBADF;
}
uint64_t vfs_fd_token(int fd)
{ // the open file the request refers to (the fd number may be closed and reused)
    int i = fdi(fd);
    return i < 0 ? 0 : g_of[i].ino;
}
int64_t vfs_aio_perform_ino(uint64_t ino, bool write, void* buf, size_t len, uint64_t off, int64_t forced)
{
    Scope s(AR_S);
    if (forced < 0) return forced;
    if (!V().ino.count(ino)) return -EIO;
    Inode& n = V().ino[ino];
    size_t want = (size_t)forced < len ? (size_t)forced : len;
    if (write) {
        heap_check(buf, len, false, "asynchronous write from buffer");
        if (v_store(n, buf, want, off) < 0) return -EFBIG;
        return (int64_t)want;
    }
    heap_check(buf, len, true, "asynchronous read into buffer");
    if (off >= n.data.size()) return 0;
    size_t k = std::min<uint64_t>(want, n.data.size() - off);
    memcpy(buf, n.data.data() + off, k);
    return (int64_t)k;
}

// ------------------------------------------------------------ oracle access
// Everything below a path becomes durable, names included
static void harden(const std::string& path)
{
    VfsState& v = V();
    Res       r = resolve(path, false);
    if (r.err || !r.ino) return;
    std::set<Ino>    in;
    std::vector<Ino> todo{r.ino};
    while (!todo.empty()) {
        Ino i = todo.back();
        todo.pop_back();
        if (!in.insert(i).second) continue;
        Inode& n = v.ino[i];
        if (n.type == 0) file_sync(n);
        else if (n.type == 1) for (auto& e : n.ents) todo.push_back(e.second);
    }
    std::vector<JOp> rest;
    for (auto& j : v.journal) {
        bool mine = in.count(j.dir) || (j.kind == J_REN && in.count(j.dir2)) || (j.dir == r.dir && j.name == r.name) || (j.kind == J_REN && j.dir2 == r.dir && j.name2 == r.name);
        if (mine) japply(j);
        else rest.push_back(j);
    }
    v.journal = std::move(rest);
    for (Ino i : in) if (v.ino[i].type == 1) v.ino[i].dur_ents = v.ino[i].ents;
    if (r.dir) v.ino[r.dir].dur_ents[r.name] = r.ino;
}

namespace vfs {
void set_faults(const FaultCfg& c) { V().f = c; V().fired = 0; }
void clear_faults() { V().f = FaultCfg(); V().fired = 0; }
uint64_t faults_fired() { return V().fired; }
bool exists(const std::string& p) { Scope s(AR_S); Res r = resolve(p, false); return !r.err && r.ino; }
bool is_dir(const std::string& p) { Scope s(AR_S); Res r = resolve(p, true); return !r.err && r.ino && V().ino[r.ino].type == 1; }
bool is_link(const std::string& p) { Scope s(AR_S); Res r = resolve(p, false); return !r.err && r.ino && V().ino[r.ino].type == 2; }
int  kind(const std::string& p)
{
    Scope s(AR_S);
    Res   r = resolve(p, true);
    if (r.err || !r.ino) return 0;
    int t = V().ino[r.ino].type;
    return t == 0 ? 1 : t == 1 ? 2 : 3;
}
bool read_file(const std::string& p, std::string& out)
{
    Scope s(AR_S);
    Res   r = resolve(p, true);
    if (r.err || !r.ino || V().ino[r.ino].type != 0) return false;
    out = V().ino[r.ino].data;
    return true;
}
static Ino mk(const std::string& p, int type)
{
    Res r = resolve(p, false);
    if (r.err) return 0;
    if (r.ino) return r.ino;
    Ino    id = V().next++;
    Inode& n = V().ino[id];
    n.id = id; n.type = type; n.nlink = type == 1 ? 2 : 1; n.parent = r.dir; n.dev = V().ino[r.dir].dev;
    V().ino[r.dir].ents[r.name] = id;
    V().ino[r.dir].dur_ents[r.name] = id;
    return id;
}
void write_file(const std::string& p, const std::string& d, bool durable)
{
    Scope s(AR_S);
    Ino   i = mk(p, 0);
    if (!i) return;
    V().ino[i].data = d;
    if (durable) file_sync(V().ino[i]);
}
void harden(const std::string& p) { Scope s(AR_S); ::sim::harden(p); }
void survives(const std::string& p) { Scope s(AR_S); V().survive.push_back(p); }
void make_dir(const std::string& p, bool) { Scope s(AR_S); mk(p, 1); }
void make_symlink(const std::string& t, const std::string& p) { Scope s(AR_S); Ino i = mk(p, 2); if (i) V().ino[i].target = t; }
void make_fifo(const std::string& p) { Scope s(AR_S); mk(p, 3); }
void make_mount(const std::string& p) { Scope s(AR_S); Ino i = mk(p, 1); if (i) { V().ino[i].dev = 1; V().ino[i].mount = true; } }
void set_cwd(const std::string& p) { Scope s(AR_S); g_cwd = p.empty() ? 0 : resolve(p, true).ino; }
void make_hardlink(const std::string& from, const std::string& to)
{
    Scope s(AR_S);
    Res a = resolve(from, false), b = resolve(to, false);
    if (!a.ino || b.ino || b.err) return;
    V().ino[b.dir].ents[b.name] = a.ino;
    V().ino[b.dir].dur_ents[b.name] = a.ino;
    V().ino[a.ino].nlink++;
}
void set_perm_fail(const std::string& p, int err) { Scope s(AR_S); Res r = resolve(p, false); if (r.ino) V().ino[r.ino].remove_err = err; }
static void walk(Ino d, const std::string& pre, std::vector<std::string>& out)
{
    for (auto& e : V().ino[d].ents) {
        out.push_back(pre + "/" + e.first);
        if (V().ino[e.second].type == 1) walk(e.second, pre + "/" + e.first, out);
    }
}
std::vector<std::string> list_tree(const std::string& p)
{
    Scope s(AR_S);
    std::vector<std::string> out;
    Res r = resolve(p, true);
    if (!r.err && r.ino) walk(r.ino, p, out);
    return out;
}
void sync_all()
{
    Scope s(AR_S);
    jcommit();
    for (auto& kv : V().ino) if (kv.second.type == 0) file_sync(kv.second);
}
int  open_fds() { int n = 0; for (auto& o : g_of) n += o.used; return n; }
bool fd_valid(int fd) { return fdi(fd) >= 0; }
} // namespace vfs
} // namespace sim

using namespace sim;

#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
#define SC(...) syscall(__VA_ARGS__)

struct SimFileCookie { int fd; };
static std::map<FILE*, int>* g_files = nullptr;

static int do_open(const char* p, int flags, mode_t mode)
{
    if (is_sim(p)) return v_open(p, flags, mode);
    if (g_active && !strcmp(p, "/proc/sys/kernel/random/uuid")) { errno = ENOENT; return -1; }
    if (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) outside("open", p);
    return (int)SC(SYS_openat, AT_FDCWD, p, flags, mode);
}

extern "C" {
int open(const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return do_open(p, flags, m);
}
int open64(const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return do_open(p, flags, m);
}
int __open_2(const char* p, int flags) { return do_open(p, flags, 0); }
int __open64_2(const char* p, int flags) { return do_open(p, flags, 0); }
int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static bool at_path(int dfd, const char* p, std::string& out)
{
    if (p[0] == '/') { if (!is_sim(p)) return false; out = p; return true; }
    int i = fdi(dfd);
    if (i < 0) return false;
    out = g_of[i].path + "/" + p;
    return true;
}
int openat(int dfd, const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    Scope s(AR_S);
    std::string x;
    if (g_p && at_path(dfd, p, x)) return v_open(x, flags, m);
    if (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) outside("open", p);
    return (int)SC(SYS_openat, dfd, p, flags, m);
}
int openat64(int dfd, const char* p, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return openat(dfd, p, flags, m);
}
int __openat_2(int dfd, const char* p, int flags) { return openat(dfd, p, flags); }

int close(int fd)
{
    if (simfd(fd)) {
        int i = fdi(fd);
        if (i < 0) { if (g_active) probe("close_bad_fd"); errno = EBADF; return -1; }
        enter_op("close", g_of[i].path);
        Scope s(AR_S);
        Ino   ino = g_of[i].ino;
        g_of[i].used = false;
        if (g_p->vfs) gc(ino);
        return 0;
    }
    if (g_active && fd <= 2) { // the program closes a descriptor it does not own
        probe("close_std_fd");
        return 0;
    }
    return (int)SC(SYS_close, fd);
}

ssize_t read(int fd, void* b, size_t n)
{
    if (!simfd(fd)) return SC(SYS_read, fd, b, n);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("read", g_of[i].path);
    Scope   s(AR_S);
    ssize_t r;
    { Scope c(AR_A); r = v_pread(i, b, n, g_of[i].off); }
    if (r > 0) g_of[i].off += r;
    mix(r);
    return r;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t off)
{
    if (!simfd(fd)) return SC(SYS_pread64, fd, b, n, off);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("pread", g_of[i].path);
    ssize_t r = v_pread(i, b, n, off);
    mix(r);
    return r;
}
ssize_t pread64(int fd, void* b, size_t n, off_t off) { return pread(fd, b, n, off); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t off, size_t) { return pread(fd, b, n, off); }
ssize_t __pread64_chk(int fd, void* b, size_t n, off_t off, size_t) { return pread(fd, b, n, off); }

static ssize_t do_pwrite(int i, const void* b, size_t n, uint64_t off)
{
    // a crash in the middle of a write leaves a prefix of it
    Scope s(AR_S);
    ssize_t r;
    r = v_pwrite(i, b, n, off);
    mix(r);
    return r;
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (!simfd(fd)) return SC(SYS_write, fd, b, n);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("write", g_of[i].path);
    if (g_active) heap_check(b, n, false, "write from buffer");
    if (g_of[i].flags & O_APPEND) { Scope s(AR_S); if (V().ino.count(g_of[i].ino)) g_of[i].off = V().ino[g_of[i].ino].data.size(); }
    ssize_t r = do_pwrite(i, b, n, g_of[i].off);
    if (r > 0) g_of[i].off += r;
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t off)
{
    if (!simfd(fd)) return SC(SYS_pwrite64, fd, b, n, off);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("pwrite", g_of[i].path);
    if (g_active) heap_check(b, n, false, "write from buffer");
    return do_pwrite(i, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t off) { return pwrite(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!simfd(fd)) return SC(SYS_writev, fd, v, c);
    Scope s(AR_S);
    std::string buf;
    for (int k = 0; k < c; k++) buf.append(static_cast<char*>(v[k].iov_base), v[k].iov_len);
    return write(fd, buf.data(), buf.size());
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!simfd(fd)) return SC(SYS_readv, fd, v, c);
    ssize_t t = 0;
    for (int k = 0; k < c; k++) {
        ssize_t r = read(fd, v[k].iov_base, v[k].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[k].iov_len) break;
    }
    return t;
}
ssize_t preadv(int fd, const struct iovec* v, int c, off_t off)
{
    if (!simfd(fd)) return SC(SYS_preadv, fd, v, c, off, 0);
    ssize_t t = 0;
    for (int k = 0; k < c; k++) {
        ssize_t r = pread(fd, v[k].iov_base, v[k].iov_len, off + t);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[k].iov_len) break;
    }
    return t;
}
ssize_t pwritev(int fd, const struct iovec* v, int c, off_t off)
{
    if (!simfd(fd)) return SC(SYS_pwritev, fd, v, c, off, 0);
    Scope s(AR_S);
    std::string buf;
    for (int k = 0; k < c; k++) buf.append(static_cast<char*>(v[k].iov_base), v[k].iov_len);
    return pwrite(fd, buf.data(), buf.size(), off);
}
ssize_t readahead(int fd, off64_t o, size_t n) { if (simfd(fd)) return 0; return SC(SYS_readahead, fd, o, n); }
ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept
{
    if (!simfd(in) && !simfd(out)) return SC(SYS_sendfile, out, in, off, n);
    errno = EINVAL;
    return -1;
}
off_t lseek(int fd, off_t off, int wh) noexcept
{
    if (!simfd(fd)) return SC(SYS_lseek, fd, off, wh);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    Scope   s(AR_S);
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)g_of[i].off : (int64_t)V().ino[g_of[i].ino].data.size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    g_of[i].off = base + off;
    return (off_t)g_of[i].off;
}
off_t lseek64(int fd, off_t off, int wh) noexcept { return lseek(fd, off, wh); }

int ftruncate(int fd, off_t n) noexcept
{
    if (!simfd(fd)) return (int)SC(SYS_ftruncate, fd, n);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("ftruncate", g_of[i].path);
    Scope s(AR_S);
    if (fault(vfs::F_META, g_of[i].path)) { errno = ENOSPC; return -1; }
    return v_trunc(V().ino[g_of[i].ino], n);
}
int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) noexcept
{
    if (!is_sim(p)) { outside("truncate", p); return (int)SC(SYS_truncate, p, n); }
    enter_op("truncate", p);
    Scope s(AR_S);
    Res   r = resolve(p, true);
    if (r.err || !r.ino) { errno = r.err ? r.err : ENOENT; return -1; }
    return v_trunc(V().ino[r.ino], n);
}
int fallocate(int fd, int mode, off_t off, off_t len)
{
    if (!simfd(fd)) return (int)SC(SYS_fallocate, fd, mode, off, len);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("fallocate", g_of[i].path);
    Scope s(AR_S);
    if (mode & FALLOC_FL_KEEP_SIZE) return 0;
    Inode& n = V().ino[g_of[i].ino];
    if (n.data.size() < (uint64_t)(off + len)) return v_trunc(n, off + len);
    return 0;
}
int fallocate64(int fd, int mode, off_t off, off_t len) { return fallocate(fd, mode, off, len); }
int posix_fallocate(int fd, off_t off, off_t len)
{
    if (!simfd(fd)) return (int)SC(SYS_fallocate, fd, 0, off, len) ? errno : 0;
    return fallocate(fd, 0, off, len) ? errno : 0;
}
int fsync(int fd)
{
    if (!simfd(fd)) return (int)SC(SYS_fsync, fd);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("fsync", g_of[i].path);
    return v_fsync(i);
}
int fdatasync(int fd)
{
    if (!simfd(fd)) return (int)SC(SYS_fdatasync, fd);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("fdatasync", g_of[i].path);
    return v_fsync(i);
}
int syncfs(int fd) noexcept
{
    if (!simfd(fd)) return (int)SC(SYS_syncfs, fd);
    vfs::sync_all();
    return 0;
}
void sync() noexcept { if (g_p) vfs::sync_all(); }
int sync_file_range(int fd, off64_t a, off64_t b, unsigned f)
{
    if (!simfd(fd)) return (int)SC(SYS_sync_file_range, fd, a, b, f);
    return 0; // no guarantee after power loss
}
int posix_fadvise(int fd, off_t a, off_t b, int c) noexcept { if (simfd(fd)) return 0; return (int)SC(SYS_fadvise64, fd, a, b, c); }
int posix_fadvise64(int fd, off_t a, off_t b, int c) noexcept { return posix_fadvise(fd, a, b, c); }
int flock(int fd, int op) noexcept { if (simfd(fd)) return 0; return (int)SC(SYS_flock, fd, op); }
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if (simfd(fd)) { errno = ENOTTY; return -1; }
    return (int)SC(SYS_ioctl, fd, req, a);
}
static int do_fcntl(int fd, int cmd, void* a)
{
    if (simfd(fd)) {
        int i = fdi(fd);
        if (i < 0) { errno = EBADF; return -1; }
        switch (cmd) {
        case F_GETFL: return g_of[i].flags;
        case F_SETFL: { int keep = O_ACCMODE | O_CREAT; g_of[i].flags = (g_of[i].flags & keep) | ((int)(long)a & ~keep); return 0; }
        case F_GETFD: case F_SETFD: return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: { Scope s(AR_S); return new_fd(g_of[i].ino, g_of[i].flags, g_of[i].path); }
        case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: return 0;
        default: return 0;
        }
    }
    return (int)SC(SYS_fcntl, fd, cmd, a);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* a = va_arg(ap, void*); va_end(ap); return do_fcntl(fd, cmd, a); }
int dup(int fd) noexcept { if (simfd(fd)) return do_fcntl(fd, F_DUPFD, nullptr); return (int)SC(SYS_dup, fd); }

int fstat(int fd, struct stat* st) noexcept
{
    if (!simfd(fd)) return (int)SC(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return -1; }
    enter_op("fstat", g_of[i].path);
    Scope s(AR_S);
    if (fault(vfs::F_STAT, g_of[i].path)) { errno = EIO; return -1; }
    if (!V().ino.count(g_of[i].ino)) { errno = ESTALE; return -1; }
    fill_stat(V().ino[g_of[i].ino], st);
    return 0;
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(const char* p, struct stat* st) noexcept
{
    if (!is_sim(p)) return (int)SC(SYS_newfstatat, AT_FDCWD, p, st, 0);
    enter_op("stat", p);
    return v_stat(p, st, true);
}
int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) noexcept
{
    if (!is_sim(p)) return (int)SC(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
    enter_op("lstat", p);
    return v_stat(p, st, false);
}
int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstatat(int dfd, const char* p, struct stat* st, int fl) noexcept
{
    Scope s(AR_S);
    std::string x;
    if (simfd(dfd) && p[0] == 0 && (fl & AT_EMPTY_PATH)) return fstat(dfd, st);
    if (g_p && at_path(dfd, p, x)) { enter_op("stat", x); return v_stat(x, st, !(fl & AT_SYMLINK_NOFOLLOW)); }
    return (int)SC(SYS_newfstatat, dfd, p, st, fl);
}
int fstatat64(int dfd, const char* p, struct stat64* st, int fl) noexcept { return fstatat(dfd, p, reinterpret_cast<struct stat*>(st), fl); }
int statx(int dfd, const char* p, int fl, unsigned mask, struct statx* sx) noexcept
{
    Scope s(AR_S);
    std::string x;
    if (g_p && (at_path(dfd, p, x) || (simfd(dfd) && !p[0]))) {
        struct stat st;
        int r = (simfd(dfd) && !p[0]) ? fstat(dfd, &st) : v_stat(x, &st, !(fl & AT_SYMLINK_NOFOLLOW));
        if (r) return r;
        memset(sx, 0, sizeof(*sx));
        sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = st.st_mode; sx->stx_size = st.st_size;
        sx->stx_nlink = st.st_nlink; sx->stx_ino = st.st_ino; sx->stx_blksize = 4096; sx->stx_dev_minor = 77;
        return 0;
    }
    return (int)SC(SYS_statx, dfd, p, fl, mask, sx);
}
int access(const char* p, int m) noexcept
{
    if (!is_sim(p)) return (int)SC(SYS_access, p, m);
    struct stat st;
    enter_op("access", p);
    return v_stat(p, &st, true);
}
int faccessat(int dfd, const char* p, int m, int) noexcept
{
    Scope s(AR_S);
    std::string x;
    struct stat st;
    if (g_p && at_path(dfd, p, x)) return v_stat(x, &st, true);
    return (int)SC(SYS_faccessat, dfd, p, m);
}
static void fill_vfs(struct statvfs* s)
{
    memset(s, 0, sizeof(*s));
    s->f_bsize = 4096; s->f_frsize = 4096; s->f_blocks = 1 << 20; s->f_bfree = s->f_bavail = 1 << 19; s->f_namemax = 255;
}
int statvfs(const char* p, struct statvfs* s) noexcept
{
    if (!is_sim(p)) { static auto r = REAL(statvfs); return r(p, s); }
    enter_op("statvfs", p);
    if (fault(vfs::F_STAT, p)) { errno = EIO; return -1; }
    fill_vfs(s);
    return 0;
}
int fstatvfs(int fd, struct statvfs* s) noexcept
{
    if (!simfd(fd)) { static auto r = REAL(fstatvfs); return r(fd, s); }
    if (fdi(fd) < 0) { errno = EBADF; return -1; }
    enter_op("fstatvfs", g_of[fdi(fd)].path);
    if (fault(vfs::F_STAT, g_of[fdi(fd)].path)) { errno = EIO; return -1; }
    fill_vfs(s);
    return 0;
}
int statvfs64(const char* p, struct statvfs64* s) noexcept { return statvfs(p, reinterpret_cast<struct statvfs*>(s)); }
int fstatvfs64(int fd, struct statvfs64* s) noexcept { return fstatvfs(fd, reinterpret_cast<struct statvfs*>(s)); }
int fstatfs(int fd, struct statfs* s) noexcept
{
    if (!simfd(fd)) return (int)SC(SYS_fstatfs, fd, s);
    memset(s, 0, sizeof(*s));
    s->f_type = 0xEF53; s->f_bsize = 4096;
    return 0;
}
int fstatfs64(int fd, struct statfs64* s) noexcept { return fstatfs(fd, reinterpret_cast<struct statfs*>(s)); }
int statfs(const char* p, struct statfs* s) noexcept
{
    if (!is_sim(p)) return (int)SC(SYS_statfs, p, s);
    memset(s, 0, sizeof(*s));
    s->f_type = 0xEF53; s->f_bsize = 4096;
    return 0;
}
int statfs64(const char* p, struct statfs64* s) noexcept { return statfs(p, reinterpret_cast<struct statfs*>(s)); }

int mkdir(const char* p, mode_t m) noexcept
{
    if (!is_sim(p)) { outside("mkdir", p); return (int)SC(SYS_mkdir, p, m); }
    enter_op("mkdir", p);
    return v_mkdir(p, m);
}
int mkdirat(int dfd, const char* p, mode_t m) noexcept
{
    Scope s(AR_S);
    std::string x;
    if (g_p && at_path(dfd, p, x)) { enter_op("mkdir", x); return v_mkdir(x, m); }
    outside("mkdir", p);
    return (int)SC(SYS_mkdirat, dfd, p, m);
}
int rmdir(const char* p) noexcept
{
    if (!is_sim(p)) { outside("rmdir", p); return (int)SC(SYS_rmdir, p); }
    enter_op("rmdir", p);
    return v_unlink(p, true, false);
}
int unlink(const char* p) noexcept
{
    if (!is_sim(p)) { outside("unlink", p); return (int)SC(SYS_unlink, p); }
    enter_op("unlink", p);
    return v_unlink(p, false, false);
}
int unlinkat(int dfd, const char* p, int fl) noexcept
{
    Scope s(AR_S);
    std::string x;
    if (g_p && at_path(dfd, p, x)) { enter_op("unlink", x); return v_unlink(x, fl & AT_REMOVEDIR, false); }
    outside("unlink", p);
    return (int)SC(SYS_unlinkat, dfd, p, fl);
}
int remove(const char* p) noexcept
{
    if (!is_sim(p)) { outside("remove", p); static auto r = REAL(remove); return r(p); }
    enter_op("remove", p);
    return v_unlink(p, false, true);
}
int rename(const char* a, const char* b) noexcept
{
    if (!is_sim(a)) { outside("rename", a); return (int)SC(SYS_rename, a, b); }
    enter_op("rename", a);
    return v_rename(a, b);
}
int renameat(int, const char* a, int, const char* b) noexcept
{
    if (!is_sim(a)) { outside("rename", a); return (int)SC(SYS_rename, a, b); }
    return rename(a, b);
}
int link(const char* a, const char* b) noexcept
{
    if (!is_sim(a)) { outside("link", a); return (int)SC(SYS_link, a, b); }
    enter_op("link", a);
    Scope s(AR_S);
    Res ra = resolve(a, false), rb = resolve(b, false);
    if (ra.err || rb.err) { errno = ra.err ? ra.err : rb.err; return -1; }
    if (!ra.ino) { errno = ENOENT; return -1; }
    if (rb.ino) { errno = EEXIST; return -1; }
    V().ino[rb.dir].ents[rb.name] = ra.ino;
    V().ino[ra.ino].nlink++;
    jadd({J_SET, rb.dir, rb.name, ra.ino, 0, ""});
    return 0;
}
int symlink(const char* t, const char* p) noexcept
{
    if (!is_sim(p)) { outside("symlink", p); return (int)SC(SYS_symlink, t, p); }
    Scope s(AR_S);
    Res   r = resolve(p, false);
    if (r.err || r.ino) { errno = r.err ? r.err : EEXIST; return -1; }
    Ino    id = V().next++;
    Inode& n = V().ino[id];
    n.id = id; n.type = 2; n.nlink = 1; n.target = t;
    V().ino[r.dir].ents[r.name] = id;
    jadd({J_SET, r.dir, r.name, id, 0, ""});
    return 0;
}
ssize_t readlink(const char* p, char* b, size_t n) noexcept
{
    if (!is_sim(p)) return SC(SYS_readlink, p, b, n);
    Scope s(AR_S);
    Res   r = resolve(p, false);
    if (r.err || !r.ino) { errno = r.err ? r.err : ENOENT; return -1; }
    if (V().ino[r.ino].type != 2) { errno = EINVAL; return -1; }
    size_t k = std::min(n, V().ino[r.ino].target.size());
    memcpy(b, V().ino[r.ino].target.data(), k);
    return (ssize_t)k;
}
char* realpath(const char* p, char* out) noexcept
{
    if (!is_sim(p)) { static auto r = REAL(realpath); return r(p, out); }
    if (!out) out = static_cast<char*>(malloc(4096));
    strcpy(out, p);
    return out;
}
char* __realpath_chk(const char* p, char* out, size_t) noexcept { return realpath(p, out); }
int chmod(const char* p, mode_t m) noexcept { if (is_sim(p)) return 0; return (int)SC(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) noexcept { if (simfd(fd)) return 0; return (int)SC(SYS_fchmod, fd, m); }
int fchmodat(int d, const char* p, mode_t m, int) noexcept { if (simfd(d) || is_sim(p)) return 0; return (int)SC(SYS_fchmodat, d, p, m); }
int utimensat(int d, const char* p, const struct timespec t[2], int f) noexcept { if (simfd(d) || (p && is_sim(p))) return 0; return (int)SC(SYS_utimensat, d, p, t, f); }

// -------- directories
struct SimDir { uint64_t magic; int fd; std::vector<std::string>* names; size_t pos; struct dirent ent; struct dirent64 ent64; };
static const uint64_t DMAGIC = 0x51D1A6C0FFEE;
static std::set<void*>* g_dirs = nullptr;
static bool is_simdir(DIR* d) { return g_dirs && g_dirs->count(d); }
static DIR* mkdirp(int fd)
{
    Scope   s(AR_S);
    int     i = fdi(fd);
    SimDir* d = new SimDir();
    d->magic = DMAGIC; d->fd = fd; d->pos = 0;
    d->names = new std::vector<std::string>{".", ".."};
    for (auto& e : V().ino[g_of[i].ino].ents) d->names->push_back(e.first);
    if (!g_dirs) g_dirs = new std::set<void*>();
    g_dirs->insert(d);
    return reinterpret_cast<DIR*>(d);
}
DIR* opendir(const char* p)
{
    if (!is_sim(p)) { static auto r = REAL(opendir); return r(p); }
    int fd = v_open(p, O_RDONLY | O_DIRECTORY, 0);
    if (fd < 0) return nullptr;
    return mkdirp(fd);
}
DIR* fdopendir(int fd)
{
    if (!simfd(fd)) { static auto r = REAL(fdopendir); return r(fd); }
    if (fdi(fd) < 0) { errno = EBADF; return nullptr; }
    return mkdirp(fd);
}
int dirfd(DIR* d) noexcept
{
    if (is_simdir(d)) return reinterpret_cast<SimDir*>(d)->fd;
    static auto r = REAL(dirfd);
    return r(d);
}
struct dirent* readdir(DIR* dd)
{
    if (!is_simdir(dd)) { static auto r = REAL(readdir); return r(dd); }
    SimDir* d = reinterpret_cast<SimDir*>(dd);
    Scope   s(AR_S);
    event_io();
    if (d->pos >= d->names->size()) return nullptr;
    int i = fdi(d->fd);
    if (i >= 0 && fault(vfs::F_READDIR, g_of[i].path)) { errno = EIO; return nullptr; }
    std::string& nm = (*d->names)[d->pos++];
    memset(&d->ent, 0, sizeof(d->ent));
    strncpy(d->ent.d_name, nm.c_str(), 255);
    d->ent.d_type = DT_UNKNOWN;
    d->ent.d_ino = 1;
    if (i >= 0) {
        auto& e = V().ino[g_of[i].ino].ents;
        auto  it = e.find(nm);
        if (it != e.end()) {
            d->ent.d_ino = it->second;
            int t = V().ino[it->second].type;
            d->ent.d_type = t == 1 ? DT_DIR : t == 2 ? DT_LNK : t == 3 ? DT_FIFO : DT_REG;
        } else if (nm == "." || nm == "..") d->ent.d_type = DT_DIR;
    }
    return &d->ent;
}
struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
void rewinddir(DIR* d) noexcept
{
    if (is_simdir(d)) { reinterpret_cast<SimDir*>(d)->pos = 0; return; }
    static auto r = REAL(rewinddir);
    r(d);
}
int closedir(DIR* dd)
{
    if (!is_simdir(dd)) { static auto r = REAL(closedir); return r(dd); }
    Scope   s(AR_S);
    SimDir* d = reinterpret_cast<SimDir*>(dd);
    g_dirs->erase(d);
    int i = fdi(d->fd);
    if (i >= 0) { Ino ino = g_of[i].ino; g_of[i].used = false; gc(ino); }
    delete d->names;
    delete d;
    return 0;
}

// -------- fts: a small physical walk over the simulated tree
struct SimFts { uint64_t magic; int opts; struct Fr { FTSENT* e; std::vector<std::string> kids; size_t k; bool opened; }; std::vector<Fr> st; std::vector<FTSENT*> all; FTSENT* last; std::vector<std::string> roots; size_t ri; bool stop; Ino cwd; };
static std::set<void*>* g_fts = nullptr;
FTS* fts_open(char* const* argv, int opts, int (*cmp)(const FTSENT**, const FTSENT**))
{
    if (!argv || !argv[0]) { errno = EINVAL; return nullptr; }
    if (!is_sim(argv[0])) { static auto r = REAL(fts_open); return r(argv, opts, cmp); }
    Scope s(AR_S);
    event_io();
    if (fault(vfs::F_OPEN, argv[0])) { errno = ENOMEM; return nullptr; }
    SimFts* f = new SimFts();
    f->opts = opts; f->ri = 0; f->cwd = g_cwd; f->stop = false; f->last = nullptr;
    for (; *argv; argv++) f->roots.push_back(*argv);
    if (!g_fts) g_fts = new std::set<void*>();
    g_fts->insert(f);
    return reinterpret_cast<FTS*>(f);
}
static FTSENT* fts_mk(SimFts* f, const std::string& path, const std::string& name, int level, FTSENT* parent)
{
    FTSENT* e = static_cast<FTSENT*>(calloc(1, sizeof(FTSENT) + name.size() + 8));
    e->fts_path = strdup(path.c_str());
    e->fts_accpath = e->fts_path;
    e->fts_pathlen = (unsigned short)path.size();
    e->fts_namelen = (unsigned short)name.size();
    strcpy(e->fts_name, name.c_str());
    e->fts_level = (short)level;
    e->fts_parent = parent;
    e->fts_instr = 3;
    e->fts_statp = static_cast<struct stat*>(calloc(1, sizeof(struct stat)));
    f->all.push_back(e);
    struct stat st;
    bool follow = (f->opts & FTS_LOGICAL) || ((f->opts & FTS_COMFOLLOW) && level == 0);
    if (v_stat(path, &st, follow, f->cwd)) {
        int er = errno;
        if (follow && v_stat(path, &st, false, f->cwd) == 0) { *e->fts_statp = st; e->fts_info = FTS_SLNONE; return e; }
        e->fts_errno = er;
        e->fts_info = FTS_NS;
        return e;
    }
    *e->fts_statp = st;
    e->fts_ino = st.st_ino;
    e->fts_info = S_ISDIR(st.st_mode) ? FTS_D : S_ISLNK(st.st_mode) ? FTS_SL : S_ISREG(st.st_mode) ? FTS_F : FTS_DEFAULT;
    // without FTS_NOCHDIR the walk changes the working directory of the process
    if (!(f->opts & FTS_NOCHDIR) && level > 0) e->fts_accpath = e->fts_name;
    e->fts_dev = st.st_dev;
    if (e->fts_info == FTS_D)
        for (FTSENT* p = parent; p; p = p->fts_parent)
            if (p->fts_ino == e->fts_ino && p->fts_dev == e->fts_dev) { e->fts_info = FTS_DC; e->fts_cycle = p; break; }
    return e;
}
FTSENT* fts_read(FTS* ff)
{
    if (!g_fts || !g_fts->count(ff)) { static auto r = REAL(fts_read); return r(ff); }
    Scope   s(AR_S);
    SimFts* f = reinterpret_cast<SimFts*>(ff);
    enter_op("fts_read", f->last ? f->last->fts_path : "");
    FTSENT* root = f->last;
    while (root && root->fts_parent) root = root->fts_parent;
    if (f->last && f->last->fts_info == FTS_D && f->last->fts_instr != FTS_SKIP && !((f->opts & FTS_XDEV) && f->last->fts_dev != root->fts_dev)) {
        // descend
        FTSENT* d = f->last;
        Res     r = resolve(d->fts_path, f->opts & FTS_LOGICAL, f->cwd);
        if (r.err || !r.ino || V().ino[r.ino].type != 1) { d->fts_info = FTS_DNR; d->fts_errno = ENOENT; f->last = d; return d; }
        if (f->stop || fault(vfs::F_READDIR, d->fts_path)) {
            if (f->stop || draw(T_FAULT, 2) == 0) { f->stop = true; errno = ENOMEM; return nullptr; }
            d->fts_info = FTS_DNR; d->fts_errno = EIO;
            return d;
        }
        if (V().ino[r.ino].remove_err) {
            d->fts_info = FTS_DNR; d->fts_errno = V().ino[r.ino].remove_err;
            return d;
        }
        if (!(f->opts & FTS_NOCHDIR)) g_cwd = r.ino;
        SimFts::Fr fr;
        fr.e = d; fr.k = 0; fr.opened = true;
        for (auto& e : V().ino[r.ino].ents) fr.kids.push_back(e.first);
        f->st.push_back(fr);
    } else if (f->last && f->last->fts_info == FTS_D) {
        f->last->fts_info = FTS_DP;
        return f->last;
    }
    if (f->st.empty()) {
        if (f->ri >= f->roots.size()) { errno = 0; return nullptr; }
        std::string p = f->roots[f->ri++];
        while (p.size() > 1 && p.back() == '/') p.pop_back();
        size_t sl = p.rfind('/');
        return f->last = fts_mk(f, p, p.substr(sl + 1), 0, nullptr);
    }
    SimFts::Fr& fr = f->st.back();
    if (fr.k < fr.kids.size()) {
        std::string nm = fr.kids[fr.k++];
        return f->last = fts_mk(f, std::string(fr.e->fts_path) + "/" + nm, nm, fr.e->fts_level + 1, fr.e);
    }
    FTSENT* d = fr.e;
    f->st.pop_back();
    d->fts_info = FTS_DP;
    if (!(f->opts & FTS_NOCHDIR)) {
        if (f->st.empty()) g_cwd = f->cwd;
        else { Res r = resolve(f->st.back().e->fts_path, false, f->cwd); if (!r.err && r.ino) g_cwd = r.ino; }
    }
    return f->last = d;
}
int fts_set(FTS* ff, FTSENT* e, int instr) noexcept
{
    if (!g_fts || !g_fts->count(ff)) { static auto r = REAL(fts_set); return r(ff, e, instr); }
    e->fts_instr = (unsigned short)instr;
    return 0;
}
int fts_close(FTS* ff)
{
    if (!g_fts || !g_fts->count(ff)) { static auto r = REAL(fts_close); return r(ff); }
    Scope   s(AR_S);
    SimFts* f = reinterpret_cast<SimFts*>(ff);
    g_fts->erase(f);
    if (!(f->opts & FTS_NOCHDIR)) g_cwd = f->cwd;
    for (auto* e : f->all) { free(e->fts_path); free(e->fts_statp); free(e); }
    delete f;
    return 0;
}

static int nftw_walk(const std::string& p, const struct stat* st, int (*fn)(const char*, const struct stat*, int, struct FTW*), int fl, int level)
{
    struct FTW w;
    size_t sl = p.rfind('/');
    w.base = (int)sl + 1; w.level = level;
    if (S_ISLNK(st->st_mode)) return fn(p.c_str(), st, FTW_SL, &w);
    if (!S_ISDIR(st->st_mode)) return fn(p.c_str(), st, FTW_F, &w);
    if (!(fl & FTW_DEPTH)) { int r = fn(p.c_str(), st, FTW_D, &w); if (r) return r; }
    std::vector<std::string> names;
    { Scope s(AR_S); Res r = resolve(p, true); if (r.ino) for (auto& e : V().ino[r.ino].ents) names.push_back(e.first); }
    for (auto& n : names) {
        struct stat s2;
        std::string q = p + "/" + n;
        int r;
        if (v_stat(q, &s2, !(fl & FTW_PHYS))) { struct FTW w2{(int)p.size() + 1, level + 1}; r = fn(q.c_str(), &s2, FTW_NS, &w2); }
        else r = nftw_walk(q, &s2, fn, fl, level + 1);
        if (r) return r;
    }
    if (fl & FTW_DEPTH) return fn(p.c_str(), st, FTW_DP, &w);
    return 0;
}
int nftw(const char* p, int (*fn)(const char*, const struct stat*, int, struct FTW*), int n, int fl)
{
    if (!is_sim(p)) { static auto r = REAL(nftw); return r(p, fn, n, fl); }
    struct stat st;
    if (v_stat(p, &st, !(fl & FTW_PHYS))) return -1;
    return nftw_walk(p, &st, fn, fl, 0);
}

// -------- stdio on simulated files: a cookie stream, known by its FILE*
static ssize_t ck_read(void* c, char* b, size_t n) { return read(static_cast<SimFileCookie*>(c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    size_t done = 0;
    int    fd = static_cast<SimFileCookie*>(c)->fd;
    while (done < n) {
        ssize_t r = write(fd, b + done, n - done);
        if (r < 0) { if (errno == EINTR) continue; return done ? (ssize_t)done : 0; }
        if (r == 0) break;
        done += r;
    }
    return (ssize_t)done;
}
static int ck_seek(void* c, off64_t* o, int wh) { off_t r = lseek(static_cast<SimFileCookie*>(c)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c)
{
    SimFileCookie* k = static_cast<SimFileCookie*>(c);
    int r = close(k->fd);
    Scope s(AR_D);
    delete k;
    return r;
}
static FILE* mk_file(int fd, const char* mode)
{
    Scope s(AR_D);
    auto* k = new SimFileCookie{fd};
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    static auto r = REAL(fopencookie);
    FILE* f = r(k, mode, io);
    if (!g_files) g_files = new std::map<FILE*, int>();
    (*g_files)[f] = fd;
    return f;
}
FILE* fopen(const char* p, const char* mode)
{
    if (g_active && !strcmp(p, "/proc/sys/kernel/random/uuid")) { errno = ENOENT; return nullptr; }
    if (!is_sim(p)) { static auto r = REAL(fopen); Scope s(AR_D); return r(p, mode); }
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
    else fl = O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
    int fd = v_open(p, fl, 0644);
    if (fd < 0) return nullptr;
    return mk_file(fd, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
FILE* fdopen(int fd, const char* mode) noexcept
{
    if (!simfd(fd)) { static auto r = REAL(fdopen); Scope s(AR_D); return r(fd, mode); }
    return mk_file(fd, mode);
}
int fileno(FILE* f) noexcept
{
    if (g_files) { auto it = g_files->find(f); if (it != g_files->end()) return it->second; }
    static auto r = REAL(fileno);
    return r(f);
}
int fclose(FILE* f)
{
    static auto r = REAL(fclose);
    if (g_files && g_files->count(f)) {
        { Scope s(AR_D); g_files->erase(f); }
        return r(f);
    }
    return r(f);
}

// -------- mmap of simulated files: a private copy (files are immutable by then)
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept
{
    if (!simfd(fd)) return reinterpret_cast<void*>(ret((long)mmap_real(a, n, prot, flags, fd, off)));
    int i = fdi(fd);
    if (i < 0) { errno = EBADF; return MAP_FAILED; }
    enter_op("mmap", g_of[i].path);
    void* p = mmap_real(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    Scope s(AR_S);
    std::string& d = V().ino[g_of[i].ino].data;
    if ((uint64_t)off < d.size()) {
        memcpy(p, d.data() + off, std::min<uint64_t>(n, d.size() - off));
        corrupt(p, std::min<uint64_t>(n, d.size() - off), g_of[i].path);
    }
    return p;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { return mmap(a, n, prot, flags, fd, off); }
int   gethostname(char* b, size_t n) noexcept { strncpy(b, "simhost", n); return 0; }
int   mlock(const void*, size_t) noexcept { return 0; }
int   posix_madvise(void*, size_t, int) noexcept { return 0; }
}

bool sim_fd_direct_ok(int fd, const void* buf, size_t len, uint64_t off)
{
    int i = fdi(fd);
    if (i < 0 || !(g_of[i].flags & O_DIRECT)) return true;
    return !((reinterpret_cast<uintptr_t>(buf) % 512) || len % 512 || off % 512);
}
