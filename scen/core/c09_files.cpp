// C09: directory and file helpers on a faulty disk and under races.
#include "sim.h"
#include <sse/schemes/utils/utils.hpp>

#include <map>
#include <stdexcept>
#include <thread>

#include <fcntl.h>
#include <unistd.h>

using namespace sim;
namespace ut = sse::utility;

static Decl d("C09", "sse::utility file helpers (remove_directory, create_directory, remove_file, open_fd, file_size, probes), glibc remove()",
              "file system, fts(3) walk, threads, clock: simulator");

namespace {
typedef std::map<std::string, std::string> Snap;
Snap snap(const std::string& root)
{
    Snap s;
    for (auto& p : vfs::list_tree(root)) {
        std::string c;
        if (vfs::is_dir(p)) c = "<dir>"; else vfs::read_file(p, c);
        s[p] = c;
    }
    return s;
}
void random_faults(int max = 4)
{
    vfs::FaultCfg f;
    const uint32_t p = 50 + (uint32_t)work(1500);
    for (int k : {vfs::F_META, vfs::F_STAT, vfs::F_READDIR, vfs::F_OPEN}) if (work(2)) f.p[k] = p;
    f.max_faults = 1 + (uint32_t)work(max);
    vfs::set_faults(f);
}

// ---------------------------------------------------------------- trees
void build_tree(const std::string& root, std::vector<std::string>& dirs, std::vector<std::string>& all)
{
    vfs::make_dir(root);
    dirs.push_back(root);
    int n = (int)work(thorough() ? 25 : 14);
    static const char* nm[] = {"a", "b", ".hidden", "..x", "with space", "-rf", "a*", "\xc3\xa9", "long_long_long_name_0123456789", "t2"};
    for (int i = 0; i < n; i++) {
        std::string p = dirs[work(dirs.size())] + "/" + nm[work(10)] + (work(3) ? std::to_string(work(100)) : "");
        if (vfs::exists(p)) continue;
        switch (work(9)) {
        case 8: vfs::make_fifo(p); break;
        case 0: case 1: case 2: vfs::make_dir(p); dirs.push_back(p); break;
        case 3: vfs::make_symlink(work(2) ? "/sim/out" : "/sim/out/d", p); probe("link_to_outside_dir"); break;
        case 4: vfs::make_symlink(work(2) ? "/sim/out/f" : "/sim/nowhere", p); break;
        case 5: vfs::make_symlink(work(2) ? ".." : dirs[work(dirs.size())], p); break;
        case 6: vfs::make_hardlink("/sim/out/f", p); break;
        default: vfs::write_file(p, "data" + std::to_string(i)); break;
        }
        all.push_back(p);
    }
}
void run_tree()
{
    draw_sched_cfg();
    vfs::make_dir("/sim/out");
    vfs::make_dir("/sim/out/d");
    vfs::make_dir("/sim/out/d/e");
    vfs::write_file("/sim/out/f", "precious");
    vfs::write_file("/sim/out/d/g", "precious too");
    vfs::write_file("/sim/out/d/e/h", "deep");
    vfs::make_dir("/sim/t2");
    vfs::write_file("/sim/t2/x", "neighbour");
    std::vector<std::string> dirs, all;
    std::string root = "/sim/t", target = root, mount;
    int kind = (int)work(8); // what the path is
    if (kind == 0) vfs::make_symlink("/sim/out", root);
    else if (kind == 1) vfs::make_symlink("/sim/nowhere", root);
    else if (kind == 2) { if (work(2)) vfs::write_file(root, "a file"); }
    else {
        build_tree(root, dirs, all);
        if (work(6) == 0) target += "/";
    }
    // another file system mounted somewhere below
    bool mounted = kind > 2 && work(8) == 0;
    if (mounted) {
        std::string p = dirs[work(dirs.size())] + "/mnt";
        vfs::make_mount(p);
        vfs::write_file(p + "/f", "on another file system");
        vfs::make_dir(p + "/d");
        vfs::make_symlink("/sim/out", p + "/l");
        mount = p;
    }
    bool relative = work(4) == 0;
    if (relative) target = target.substr(5);
    bool perm = false;
    if (kind > 2 && !all.empty() && work(5) == 0) {
        std::string p = all[work(all.size())];
        std::string c;
        // not the outside file through its hard link
        if (vfs::is_dir(p) || !vfs::read_file(p, c) || c != "precious") { vfs::set_perm_fail(p, work(2) ? EACCES : EPERM); perm = true; }
    }
    bool faults = work(2), racers = kind > 2 && work(3) == 0;
    int  callers = kind > 2 ? 1 + (int)(work(3) == 0 ? work(3) : 0) : 1;
    Snap out = snap("/sim/out"), t2 = snap("/sim/t2"), mnt;
    if (mounted) mnt = snap(mount);
    size_t nodes = vfs::list_tree(root).size() + (vfs::exists(root) ? 1 : 0);
    incarnation([&] {
        sim::Scope app(AR_A);
        if (relative) vfs::set_cwd("/sim");
        if (faults) random_faults();
        int fds = vfs::open_fds();
        std::vector<std::thread> th;
        auto remover = [&](std::string tgt) {
            bool ok = false, threw = false;
            try { ok = ut::remove_directory(tgt); } catch (std::exception& e) { threw = true; }
            Quiet q;
            mix(ok * 2 + threw);
            bool there = vfs::exists(root);
            if (ok && there) fail("not-removed", "remove_directory reports success, %s is still there (%zu entries below, %llu faults)", root.c_str(), vfs::list_tree(root).size(), (unsigned long long)vfs::faults_fired());
            if (!ok && !perm && !mounted && !racers && callers == 1 && !vfs::faults_fired())
                fail("refused", "remove_directory %s on a healthy tree nobody else uses", threw ? "throws" : "returns false");
            if (!ok && vfs::faults_fired()) probe("reported_failure");
            if (ok) { probe("removed"); if (nodes > 1) nontrivial(); }
            progress();
        };
        for (int i = 1; i < callers; i++) th.emplace_back([&] { remover(target); });
        if (racers) for (int k = 0; k < 2; k++)
            th.emplace_back([&, k] {
                for (int i = 0; i < 5; i++) {
                    std::string dd = dirs[work(dirs.size())], p = dd + "/race" + std::to_string(k) + std::to_string(work(3));
                    switch (work(4)) {
                    case 0: ut::create_directory(p, 0700); break;
                    case 1: try { int fd = ut::open_fd(p, false); close(fd); } catch (std::exception&) {} break;
                    case 2: ut::remove_file(all.empty() ? p : all[work(all.size())]); break;
                    default: if (dd != root) { try { ut::remove_directory(dd); } catch (std::exception&) {} } break;
                    }
                    progress();
                }
            });
        remover(target);
        for (auto& t : th) t.join();
        Quiet q;
        if (vfs::open_fds() != fds) fail("fd-leak", "%d file descriptors are left open", vfs::open_fds() - fds);
        if (snap("/sim/out") != out) fail("outside-touched", "files outside the tree were removed or changed");
        if (mounted && snap(mount) != mnt) fail("outside-touched", "files on another file system, mounted below the tree, were removed or changed");
        if (snap("/sim/t2") != t2) fail("outside-touched", "files beside the tree were removed or changed");
    });
}
Reg r1({"C09", "remove_tree", run_tree, false, 20000, 240000,
        "a random tree of directories, files, symbolic links (to files and directories outside, dangling, cyclic), hard links and entries that cannot be removed, or a link, a file or nothing in its place; 1 to 3 concurrent remove_directory calls, 0 or 2 threads changing the tree, faults in stat/unlink/rmdir/readdir/open; oracle: success only if gone, healthy removal succeeds, outside untouched, no descriptor leaked; non-trivial: removal of a non-empty tree"});

// ---------------------------------------------------------------- what is there
// Every kind of name, links followed: the helpers agree with the file system.
void run_probes()
{
    draw_sched_cfg(false);
    vfs::make_dir("/sim/w");
    vfs::make_dir("/sim/w/sub");
    int np = 2 + (int)work(10);
    std::vector<std::string> names;
    static const char* nm[] = {"a", "b.txt", ".h", "with space", "-rf", "sub/x", "sub/.y", "LONGLONGLONGLONGLONGLONG", "e\xcc\x81", "n"};
    for (int i = 0; i < np; i++) {
        std::string p = std::string("/sim/w/") + nm[work(10)] + (work(2) ? std::to_string(work(6)) : "");
        if (vfs::exists(p)) continue;
        names.push_back(p);
        std::string to = names[work(names.size())]; // a link may point to a link, to itself, or to a later name
        switch (work(8)) {
        case 0: break; // nothing
        case 1: vfs::make_dir(p); break;
        case 2: vfs::make_fifo(p); break;
        case 3: vfs::write_file(p, ""); break;
        case 4: vfs::write_file(p, "content of " + p); break;
        case 5: vfs::make_symlink(work(2) ? "." : "..", p); break;
        default: vfs::make_symlink(to, p); break;
        }
    }
    names.push_back("/sim/w/none/x");
    int fpath = (int)work(names.size());
    if (vfs::exists(names[fpath]) && !vfs::is_dir(names[fpath]) && !vfs::is_link(names[fpath])) names.push_back(names[fpath] + "/x"); // below a file
    bool faults = work(3) == 0, relative = work(4) == 0;
    int  steps = 4 + (int)work(thorough() ? 40 : 20);
    incarnation([&] {
        sim::Scope app(AR_A);
        if (relative) vfs::set_cwd("/sim/w");
        if (faults) random_faults(6);
        for (int k = 0; k < steps; k++) {
            std::string abs = names[work(names.size())], p = relative && work(2) ? abs.substr(7) : abs;
            std::string content, after;
            int type; // what a healthy file system says; 0 nothing 1 file 2 directory 3 special; links followed
            bool link;
            Snap before;
            {
                Quiet q;
                before = snap("/sim/w");
                link = vfs::is_link(abs);
                type = vfs::is_dir(abs) ? 2 : vfs::read_file(abs, content) ? 1 : vfs::kind(abs);
            }
            uint64_t f0 = vfs::faults_fired();
            int  op = (int)work(8);
            bool r = false, threw = false;
            switch (op) {
            case 0: r = ut::exists(p); break;
            case 1: r = ut::is_file(p); break;
            case 2: r = ut::is_directory(p); break;
            case 3: r = ut::create_directory(p, 0700); break;
            case 4: r = ut::remove_file(p); break;
            case 5: try { int fd = ut::open_fd(p, work(2)); r = true; if (!vfs::fd_valid(fd)) fail("bad-fd", "open_fd returned %d", fd); close(fd); } catch (std::exception&) { threw = true; } break;
            case 6: if (ut::exists(p)) r = true; break;
            default: if (link || type != 2) { try { r = ut::remove_directory(p); } catch (std::exception&) { threw = true; } } else op = 0, r = ut::exists(p); break;
            }
            bool fault = vfs::faults_fired() != f0;
            Quiet q;
            Snap now = snap("/sim/w");
            mix(op * 4 + r * 2 + fault);
            bool same_tree = now == before;
            static const char* ON[] = {"exists", "is_file", "is_directory", "create_directory", "remove_file", "open_fd", "exists", "remove_directory"};
            bool there = link || type; // something has this name
            bool want = false, keeps = true;
            switch (op) {
            case 0: case 6: want = type != 0; break;
            case 1: want = type == 1; break;
            case 2: want = type == 2; break;
            case 3: want = !there && vfs::is_dir(abs.substr(0, abs.rfind('/'))); keeps = !r; break;
            case 4: want = there && (link || type != 2); keeps = !r; break;
            case 5: want = type == 1 || (type == 3 && r); keeps = there && !link; if (!there || (link && type == 0)) { keeps = false; want = r; } break; // an absent file is created where that is possible
            case 7: want = r; keeps = !there; break;
            }
            if (r && !want) fail("wrong-answer", "%s(%s) says yes; it is %s%s", ON[op], p.c_str(), link ? "a link to " : "", type == 0 ? "nothing" : type == 1 ? "a file" : type == 2 ? "a directory" : "a special file");
            if (!r && want && !fault) fail("wrong-answer", "%s(%s) says no; it is %s%s", ON[op], p.c_str(), link ? "a link to " : "", type == 0 ? "nothing" : type == 1 ? "a file" : type == 2 ? "a directory" : "a special file");
            if (keeps && !same_tree) fail("outside-touched", "%s(%s) = %d changed the tree", ON[op], p.c_str(), r);
            if (op == 3 && r && !vfs::is_dir(abs)) fail("wrong-answer", "create_directory(%s) reports success, there is no directory", p.c_str());
            if ((op == 4 || op == 7) && r && (vfs::exists(abs))) fail("not-removed", "%s(%s) reports success, it is still there", ON[op], p.c_str());
            if (op == 5 && !there && !fault && vfs::is_dir(abs.substr(0, abs.rfind('/'))) && !r) fail("refused", "open_fd(%s) does not create the file", p.c_str());
            if (op == 5 && r && type != 3 && vfs::kind(abs) != 1) fail("wrong-answer", "open_fd(%s) returned a descriptor, there is no file", p.c_str());
            // nothing else changed
            for (auto& e : before) if (e.first != abs && !(op == 5 && link) && !now.count(e.first) && !vfs::exists(e.first)) fail("outside-touched", "%s(%s) removed %s", ON[op], p.c_str(), e.first.c_str());
            (void)threw;
            progress();
        }
        if (names.size() > 3) nontrivial();
    });
}
Reg r4({"C09", "probes", run_probes, false, 20000, 240000,
        "files, directories, special files, links to them and to one another (also cyclic and dangling), absolute and relative names; one thread calls every helper on them, with failing system calls; oracle: the answers agree with the file system and only what was asked for changes; non-trivial: at least four names"});

// ---------------------------------------------------------------- races of helpers on shared names
enum Op { MKDIR, RMFILE, OPEN, RMDIR, EXISTS, ISFILE, ISDIR, NOPS };
const char* NAME[] = {"create_directory", "remove_file", "open_fd", "remove_directory", "exists", "is_file", "is_directory"};
struct Ev { int thread; Op op; bool ok, fault; uint64_t inv, ret; };
struct Hist { std::vector<Ev> ev; int init; };

// Is there an order of the operations, consistent with real time, in which each
// behaves as on an atomic file system? States: 0 absent, 1 file, 2 directory.
bool apply(const Ev& e, bool overlapped, int st, std::vector<int>& next)
{
    int  to = st;
    bool ok = false;
    switch (e.op) {
    case MKDIR: ok = st == 0; if (ok) to = 2; break;
    case RMFILE: ok = st == 1; if (ok) to = 0; break;
    case OPEN: ok = st != 2; if (ok) to = 1; break;
    case RMDIR: ok = true; to = 0; break;
    case EXISTS: ok = st != 0; break;
    case ISFILE: ok = st == 1; break;
    case ISDIR: ok = st == 2; break;
    default: break;
    }
    next.clear();
    if (ok == e.ok) next.push_back(to);
    if (!e.ok && (e.fault || (e.op == RMDIR && overlapped))) next.push_back(st);
    return !next.empty();
}
bool lin(const Hist& h, uint32_t done, int st, std::set<std::pair<uint32_t, int>>& seen)
{
    size_t n = h.ev.size();
    if (done == (1u << n) - 1) return true;
    if (!seen.insert({done, st}).second) return false;
    uint64_t first_ret = UINT64_MAX;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) first_ret = std::min(first_ret, h.ev[i].ret);
    std::vector<int> next;
    for (size_t i = 0; i < n; i++) {
        if (done >> i & 1 || h.ev[i].inv > first_ret) continue;
        bool ov = false;
        for (size_t j = 0; j < n; j++) if (j != i && h.ev[j].inv < h.ev[i].ret && h.ev[i].inv < h.ev[j].ret) ov = true;
        if (apply(h.ev[i], ov, st, next))
            for (int s2 : next) if (lin(h, done | 1u << i, s2, seen)) return true;
    }
    return false;
}
void run_ops()
{
    draw_sched_cfg();
    vfs::make_dir("/sim/w");
    int np = 1 + (int)work(3), nt = 2 + (int)work(3), per = 1 + (int)work(5);
    auto* hist = make_shared_state<std::vector<Hist>>(np);
    static const char* keep = "kept content";
    for (int i = 0; i < np; i++) {
        (*hist)[i].init = (int)work(3);
        std::string p = "/sim/w/p" + std::to_string(i);
        if ((*hist)[i].init == 1) vfs::write_file(p, keep);
        if ((*hist)[i].init == 2) vfs::make_dir(p);
    }
    bool faults = work(2);
    incarnation([&] {
        sim::Scope app(AR_A);
        if (faults) random_faults(8);
        auto* clock = make_shared_state<uint64_t>(0);
        int   fds = vfs::open_fds();
        std::vector<std::thread> th;
        for (int t = 0; t < nt; t++)
            th.emplace_back([&, t] {
                for (int k = 0; k < per; k++) {
                    int i = (int)work(np);
                    Op  op = (Op)work(NOPS);
                    std::string p = "/sim/w/p" + std::to_string(i);
                    uint64_t inv, f0;
                    { Quiet q; inv = ++*clock; f0 = vfs::faults_fired(); if ((*hist)[i].ev.size() >= 14) continue; }
                    bool ok = false;
                    switch (op) {
                    case MKDIR: ok = ut::create_directory(p, 0700); break;
                    case RMFILE: ok = ut::remove_file(p); break;
                    case OPEN: try { int fd = ut::open_fd(p, work(2)); ok = true; if (!vfs::fd_valid(fd)) fail("bad-fd", "open_fd returned %d", fd); close(fd); } catch (std::exception&) {} break;
                    case RMDIR: try { ok = ut::remove_directory(p); } catch (std::exception&) {} break;
                    case EXISTS: ok = ut::exists(p); break;
                    case ISFILE: ok = ut::is_file(p); break;
                    default: ok = ut::is_directory(p); break;
                    }
                    Quiet q;
                    sim::Scope s(AR_S);
                    (*hist)[i].ev.push_back({t, op, ok, vfs::faults_fired() != f0, inv, ++*clock});
                    trace("%s(p%d) = %d", NAME[op], i, ok);
                    mix(op * 2 + ok);
                    progress();
                }
            });
        for (auto& t : th) t.join();
        Quiet q;
        if (vfs::open_fds() != fds) fail("fd-leak", "%d file descriptors are left open", vfs::open_fds() - fds);
        for (int i = 0; i < np; i++) {
            Hist& h = (*hist)[i];
            std::string p = "/sim/w/p" + std::to_string(i), c;
            // the final state is observed too
            uint64_t a = ++*clock, b = ++*clock;
            bool dir = vfs::is_dir(p), file = vfs::read_file(p, c);
            h.ev.push_back({99, ISFILE, file, false, a, b});
            a = ++*clock; b = ++*clock;
            h.ev.push_back({99, ISDIR, dir, false, a, b});
            std::set<std::pair<uint32_t, int>> seen;
            if (h.ev.size() > 4) nontrivial();
            if (!lin(h, 0, h.init, seen)) {
                std::string all;
                for (auto& e : h.ev) all += std::string(" ") + NAME[e.op] + "@" + std::to_string(e.thread) + "[" + std::to_string(e.inv) + "," + std::to_string(e.ret) + "]=" + (e.ok ? "yes" : e.fault ? "no(fault)" : "no");
                fail("not-linearizable", "no order of these operations on p%d (%s at first) explains their results:%s", i, h.init == 0 ? "absent" : h.init == 1 ? "a file" : "a directory", all.c_str());
            }
            // a file nobody removed keeps its content
            bool removed = h.init != 1;
            for (auto& e : h.ev) if (e.op == RMFILE || e.op == RMDIR) removed = true;
            if (!removed && (!file || c != keep)) fail("content-lost", "p%d was opened and probed only, its content is '%s'", i, c.c_str());
        }
    });
}
Reg r2({"C09", "helpers", run_ops, false, 25000, 300000,
        "2 to 4 threads call create_directory, remove_file, open_fd, remove_directory and the probes on 1 to 3 shared names, with failing system calls; oracle: linearizability of each name's history against an atomic file system (a call that met a fault may fail without effect), content kept, no descriptor leaked; non-trivial: a name with at least three operations"});

void run_size()
{
    draw_sched_cfg(false);
    vfs::make_dir("/sim/w");
    size_t n = work(3) ? work(20000) : 0;
    std::string data(n, 'x');
    bool there = work(3);
    if (there) vfs::write_file("/sim/w/f", data);
    bool faults = work(2), direct = work(2);
    incarnation([&] {
        sim::Scope app(AR_A);
        if (faults) random_faults();
        int fds = vfs::open_fds();
        int fd = -1;
        try { fd = ut::open_fd("/sim/w/f", direct); } catch (std::exception&) {
            if (!vfs::faults_fired()) fail("refused", "open_fd fails on a healthy disk");
        }
        if (fd >= 0) {
            uint64_t f0 = vfs::faults_fired();
            try {
                ssize_t s = ut::file_size(fd);
                if (s != (ssize_t)(there ? n : 0)) fail("wrong-size", "file_size says %zd, the file has %zu bytes", s, there ? n : 0);
                nontrivial();
            } catch (std::exception&) { if (vfs::faults_fired() == f0) fail("refused", "file_size throws on a healthy disk"); }
            f0 = vfs::faults_fired();
            size_t ps = ut::device_page_size(fd);
            if (ps != 4096 && !(ps == 0 && vfs::faults_fired() != f0)) fail("wrong-page-size", "device_page_size(fd) says %zu", ps);
            f0 = vfs::faults_fired();
            ps = ut::device_page_size(std::string("/sim/w/f"));
            if (ps != 4096 && !(ps == 0 && vfs::faults_fired() != f0)) fail("wrong-page-size", "device_page_size(path) says %zu", ps);
            // both ways of use
            char     b[512] __attribute__((aligned(512)));
            memset(b, 'y', sizeof b);
            if (pwrite(fd, b, 512, 32768) != 512 || pread(fd, b, 512, 32768) != 512) fail("bad-fd", "the descriptor cannot be read and written");
            close(fd);
            std::string c;
            Quiet q;
            if (!vfs::read_file("/sim/w/f", c) || c.compare(0, there ? n : 0, there ? data : "")) fail("content-lost", "open_fd changed the file");
        } else if (there) {
            Quiet q;
            std::string c;
            if (!vfs::read_file("/sim/w/f", c) || c != data) fail("content-lost", "a failed open_fd changed the file");
        }
        try { ut::file_size(-1); fail("not-reported", "file_size(-1) does not fail"); } catch (std::exception&) {}
        if (ut::device_page_size(std::string("/sim/w/none")) != 0) fail("wrong-page-size", "a missing file has a page size");
        if (vfs::open_fds() != fds) fail("fd-leak", "%d file descriptors are left open", vfs::open_fds() - fds);
        progress();
    });
}
Reg r3({"C09", "open_and_size", run_size, false, 7000, 84000,
        "open_fd (buffered or direct), file_size and device_page_size on absent, empty and filled files with failing open/fstat/statvfs; non-trivial: a size was read"});
} // namespace
