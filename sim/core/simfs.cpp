// Simulated disk and the libc entry points that reach it. Paths under /simroot and descriptors
// >= FD_BASE are simulated; everything else goes to the kernel unchanged.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"

#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <csignal>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <spawn.h>
#include <sys/xattr.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <signal.h>

namespace sim
{
const char* const kClsName[C_COUNT]
    = {"open",     "read",   "write",    "trunc",   "fsync",   "stat",  "unlink", "mkdir",
       "rmdir",    "rename", "link",     "symlink", "readlink", "chmod", "chown",  "utimens",
       "opendir",  "readdir", "xattr",   "flock",   "statfs",  "random", "lock",  "other", "dwrite"};
int cls_from_name(std::string_view n)
{
    for (int i = 0; i < C_COUNT; ++i)
        if (n == kClsName[i])
            return i;
    return -1;
}
std::shared_ptr<Disk> disk;
bool g_io_faults_enabled = true;
int g_pid = 4242;
std::set<int> g_other_pids, g_foreign_pids;    // other simulated processes that are alive
thread_local int tl_pid = 0;
std::function<int(const std::string&, const std::vector<std::string>&)> g_on_spawn;
ssize_t (*g_on_stdin)(void*, size_t) = nullptr;
int (*g_on_isatty)(int fd) = nullptr;
std::function<void(uint64_t, const std::string&)> g_on_open, g_on_change;
std::function<int(int pid, int sig)> g_on_kill;
std::function<int(const std::string& path, unsigned long req, void* arg)> g_on_ioctl;
static struct sigaction g_sig[65];
bool signal_handled(int sig)
{
    return g_sig[sig].sa_handler != SIG_DFL && g_sig[sig].sa_handler != SIG_IGN;
}
bool deliver_signal(int sig)
{
    if (!signal_handled(sig))
        return false;
    trace("signal %d", sig);
    g_sig[sig].sa_handler(sig);
    return true;
}
uint64_t g_random_bytes_drawn = 0;
std::function<void(const Inode&, uint64_t, std::string_view)> g_on_write;
std::function<void(int, const std::string&)> g_on_mutation;

static timespec ts_now()
{
    int64_t n = now_ns();
    return timespec{(time_t)(n / 1000000000), (long)(n % 1000000000)};
}

// ------------------------------------------------------------------ Inode / Disk
std::string Inode::read(uint64_t off, uint64_t len) const
{
    if (off >= size)
        return {};
    len = std::min(len, size - off);
    std::string r(len, '\0');
    uint64_t done = 0;
    while (done < len)
    {
        uint64_t p = (off + done) / 4096, o = (off + done) % 4096;
        uint64_t n = std::min<uint64_t>(4096 - o, len - done);
        if (auto it = pages.find(p); it != pages.end())
            memcpy(&r[done], it->second->b + o, n);
        done += n;
    }
    return r;
}
void Inode::write(uint64_t off, const void* src, uint64_t len)
{
    if (!len)
        return;
    uint64_t done = 0;
    while (done < len)
    {
        uint64_t p = (off + done) / 4096, o = (off + done) % 4096;
        uint64_t n = std::min<uint64_t>(4096 - o, len - done);
        auto& pg = pages[p];
        if (!pg)
        {
            pg = std::make_shared<Page>();
            memset(pg->b, 0, 4096);
        }
        else if (pg.use_count() > 1)
            pg = std::make_shared<Page>(*pg);
        memcpy(pg->b + o, (const char*)src + done, n);
        done += n;
    }
    size = std::max(size, off + len);
}
void Inode::truncate(uint64_t n)
{
    if (n < size)
    {
        pages.erase(pages.lower_bound((n + 4095) / 4096), pages.end());
        if (auto it = pages.find(n / 4096); n % 4096 && it != pages.end())
        {
            auto& pg = it->second;
            if (pg.use_count() > 1)
                pg = std::make_shared<Page>(*pg);
            memset(pg->b + n % 4096, 0, 4096 - n % 4096);
        }
    }
    size = n;
}
std::shared_ptr<Disk> Disk::clone() const
{
    auto d = std::make_shared<Disk>();
    d->next_ino = next_ino;
    for (auto& p : inodes)
        d->inodes[p.first] = std::make_shared<Inode>(*p.second);
    return d;
}
uint64_t Disk::used_bytes() const
{
    uint64_t n = 0;
    for (auto& p : inodes)
    {
        n += 256;
        n += 4096 * p.second->pages.size();
    }
    return n;
}
void Disk::drop_orphans()
{
    for (auto it = inodes.begin(); it != inodes.end();)
        if (it->second->nlink == 0)
            it = inodes.erase(it);
        else
            ++it;
}
static void maybe_free(Disk& d, uint64_t ino);
void Disk::apply(const Mut& m)
{
    Inode* n = get(m.ino);
    Inode* pa = get(m.a);
    switch (m.k)
    {
    case Mut::CREATE:
    {
        if (!pa)
            return;
        auto i = std::make_shared<Inode>();
        i->ino = m.ino;
        i->mode = m.mode;
        i->uid = m.uid;
        i->gid = m.gid;
        i->at = i->mt = i->ct = m.now;
        i->nlink = S_ISDIR(m.mode) ? 2 : 1;
        i->target = m.data;
        i->size = m.data.size();
        i->parent = m.a;
        inodes[m.ino] = i;
        pa->ents[m.name] = m.ino;
        if (S_ISDIR(m.mode))
            pa->nlink++;
        pa->mt = pa->ct = m.now;
        next_ino = std::max(next_ino, m.ino + 1);
        break;
    }
    case Mut::LINK:
        if (!n || !pa)
            return;
        pa->ents[m.name] = m.ino;
        n->nlink++;
        n->ct = pa->mt = pa->ct = m.now;
        break;
    case Mut::UNLINK:
    {
        if (!pa)
            return;
        auto it = pa->ents.find(m.name);
        if (it == pa->ents.end())
            return;
        uint64_t v = it->second;
        pa->ents.erase(it);
        pa->mt = pa->ct = m.now;
        Inode* vi = get(v);
        if (vi)
        {
            if (S_ISDIR(vi->mode))
            {
                vi->nlink = 0;
                pa->nlink--;
            }
            else
                vi->nlink--;
            vi->ct = m.now;
            maybe_free(*this, v);
        }
        break;
    }
    case Mut::RENAME:
    {
        Inode* pb = get(m.b);
        if (!pa || !pb)
            return;
        auto it = pa->ents.find(m.name);
        if (it == pa->ents.end())
            return;
        uint64_t src = it->second;
        Inode* si = get(src);
        auto jt = pb->ents.find(m.name2);
        uint64_t victim = 0;
        if (jt != pb->ents.end())
            victim = jt->second;
        if (victim == src)
            return;
        pa->ents.erase(m.name);
        pb->ents[m.name2] = src;
        if (si && S_ISDIR(si->mode))
        {
            pa->nlink--;
            pb->nlink++;
            si->parent = m.b;
        }
        if (si)
            si->ct = m.now;
        pa->mt = pa->ct = pb->mt = pb->ct = m.now;
        if (Inode* vi = victim ? get(victim) : nullptr)
        {
            if (S_ISDIR(vi->mode))
            {
                vi->nlink = 0;
                pb->nlink--;
            }
            else
                vi->nlink--;
            vi->ct = m.now;
            maybe_free(*this, victim);
        }
        break;
    }
    case Mut::WRITE:
        if (!n)
            return;
        n->write(m.off, m.data.data(), m.data.size());
        n->mt = n->ct = m.now;
        break;
    case Mut::TRUNC:
        if (!n)
            return;
        n->truncate(m.off);
        n->mt = n->ct = m.now;
        break;
    case Mut::ATTR:
        if (!n)
            return;
        if (m.what & 1)
            n->mode = (n->mode & S_IFMT) | (m.mode & 07777);
        if (m.what & 2)
        {
            if (m.uid != (uint32_t)-1)
                n->uid = m.uid;
            if (m.gid != (uint32_t)-1)
                n->gid = m.gid;
        }
        if (m.what & 4)
            n->at = m.t;
        if (m.what & 8)
            n->mt = m.t2;
        n->ct = m.now;
        break;
    case Mut::XSET:
        if (!n)
            return;
        n->xattrs[m.name] = m.data;
        n->ct = m.now;
        break;
    case Mut::XDEL:
        if (!n)
            return;
        n->xattrs.erase(m.name);
        n->ct = m.now;
        break;
    }
}
uint64_t Disk::resolve(std::string_view path) const
{
    uint64_t cur = 1;
    size_t i = 0;
    while (i < path.size())
    {
        while (i < path.size() && path[i] == '/')
            ++i;
        size_t j = path.find('/', i);
        if (j == std::string_view::npos)
            j = path.size();
        if (j == i)
            break;
        auto* n = get(cur);
        if (!n)
            return 0;
        auto it = n->ents.find(std::string(path.substr(i, j - i)));
        if (it == n->ents.end())
            return 0;
        cur = it->second;
        i = j;
    }
    return cur;
}
std::string Disk::dump() const
{
    std::string out;
    std::function<void(uint64_t, std::string)> rec = [&](uint64_t i, std::string p)
    {
        auto* n = get(i);
        if (!n)
            return;
        out += strf("%s ino=%llu mode=%o size=%llu nlink=%u\n",
                    p.c_str(),
                    (unsigned long long)i,
                    n->mode,
                    (unsigned long long)n->size,
                    n->nlink);
        for (auto& e : n->ents)
            rec(e.second, p + "/" + e.first);
    };
    rec(1, "");
    return out;
}
std::shared_ptr<Disk> fresh_disk()
{
    auto d = std::make_shared<Disk>();
    for (int k = 0; k < 2; ++k)
    {
        auto r = std::make_shared<Inode>();
        r->ino = 1 + k;
        r->mode = S_IFDIR | 0755;
        r->nlink = 2;
        r->parent = 1;
        r->at = r->mt = r->ct = ts_now();
        d->inodes[r->ino] = r;
    }
    d->inodes[1]->ents["simroot"] = 2;
    d->inodes[1]->nlink = 3;
    d->next_ino = 3;
    return d;
}

// ------------------------------------------------------------------ descriptors, locks, journal
namespace
{
    constexpr int FD_BASE = 1 << 20;
    struct Pipe
    {
        std::string buf;
        int ends[2] = {1, 1};    // read, write
    };
    struct OpenFile
    {
        OpenFile() = default;
        OpenFile(const OpenFile&) = delete;
        ~OpenFile()
        {
            if (!pipe)
                return;
            --pipe->ends[pipe_end];
            if (self_id() >= 0)
                wake_all(pipe.get());
        }
        std::shared_ptr<Pipe> pipe;
        int pipe_end = 0;    // 0 read, 1 write
        int pid = 0;         // of the process that made the pipe
        bool cloexec = false;
        std::shared_ptr<Disk> d;
        uint64_t ino = 0;
        int flags = 0;
        uint64_t pos = 0;
        bool urandom = false;
        bool meta = false;    // named *.meta: the metadata half of a file of the full format
        int flock = 0;    // 0 none 1 shared 2 exclusive
    };
    std::map<int, std::shared_ptr<OpenFile>> fds;
    std::map<std::pair<Disk*, uint64_t>, int> open_count;
    struct FlockState
    {
        int shared = 0;
        OpenFile* excl = nullptr;
    };
    std::map<std::pair<Disk*, uint64_t>, FlockState> flocks;
    struct SimDir
    {
        uint32_t magic = 0x51D1Au;
        int fd = -1;
        std::shared_ptr<Disk> d;
        uint64_t ino = 0;
        std::vector<std::pair<std::string, uint64_t>> list;
        size_t pos = 0;
        bool loaded = false;
        struct dirent64 ent;
    };
    std::set<void*> sim_dirs;
    bool journal_on = false;
    struct JRec
    {
        Mut m;
        bool durable_data = false;
    };
    std::vector<JRec> journal;
    std::shared_ptr<Disk> journal_base;
    size_t committed_meta = 0;
    uint64_t mut_total = 0;

    struct OpCounters
    {
        int op = 0;
        std::array<int, C_COUNT> n{};
        int muts = 0;
    };
    std::map<int, OpCounters> counters;    // by op id
    OpCounters& ctr() { return counters[cur_op()]; }

    std::shared_ptr<Disk> crash_image;
    bool crash_power = false;
    int crash_op = 0;

    Rng io_rng(1);
    bool io_rng_init = false;

    Rng ent_rng(1);
    bool ent_init = false;

    bool is_data(const Mut& m) { return m.k == Mut::WRITE; }

    std::shared_ptr<Disk> power_image(uint64_t seed)
    {
        Rng r(seed);
        auto d = journal_base->clone();
        // which metadata prefix reached the journal
        size_t upto = committed_meta;
        if (journal.size() > committed_meta)
        {
            switch (r.below(4))
            {
            case 0:
                break;
            case 1:
                upto = journal.size();
                break;
            default:
                upto = committed_meta + r.below(journal.size() - committed_meta + 1);
            }
        }
        int data_mode = (int)r.below(4);    // 0 drop all, 1 keep all, 2/3 random
        for (size_t i = 0; i < journal.size(); ++i)
        {
            const Mut& m = journal[i].m;
            if (!is_data(m))
            {
                if (i < upto)
                    d->apply(m);
                continue;
            }
            if (journal[i].durable_data)
            {
                d->apply(m);
                continue;
            }
            if (data_mode == 0)
                continue;
            if (data_mode == 1 || r.chance(1, 2))
            {
                d->apply(m);
                continue;
            }
            if (r.chance(1, 2))
                continue;
            // torn: keep a subset of 512-byte sectors
            uint64_t off = m.off, end = m.off + m.data.size();
            while (off < end)
            {
                uint64_t nxt = std::min(end, (off / 512 + 1) * 512);
                if (r.chance(1, 2))
                {
                    Mut part = m;
                    part.off = off;
                    part.data = m.data.substr(off - m.off, nxt - off);
                    d->apply(part);
                }
                off = nxt;
            }
        }
        d->drop_orphans();
        return d;
    }

    void do_mut(Mut m, int cls, const std::string& path)
    {
        m.now = ts_now();
        ++mut_total;
        auto& c = ctr();
        ++c.muts;
        // torn crash for this very write?
        if (m.k == Mut::WRITE && !crash_image)
            for (auto& cs : cfg.crashes)
            {
                // A dying process leaves a prefix of its write, cut where a page of the file ends.
                int64_t keep = (int64_t)((m.off + cs.torn) / 4096 * 4096) - (int64_t)m.off;
                if (!cs.fired && cs.op == cur_op() && cs.nth == c.muts && cs.torn >= 0
                    && cs.torn < (int64_t)m.data.size() && !cs.power)
                {
                    cs.fired = true;
                    auto d = disk->clone();
                    Mut part = m;
                    part.data.resize(std::max<int64_t>(0, keep));
                    if (!part.data.empty())
                        d->apply(part);
                    d->drop_orphans();
                    crash_image = d;
                    crash_power = false;
                    crash_op = cs.op;
                    ++R->crashes_proc;
                    ++R->torn;
                    trace("crash(torn %lld) in op %d", (long long)keep, cs.op);
                }
            }
        disk->apply(m);
        if (m.k == Mut::WRITE && g_on_write)
            if (auto* n = disk->get(m.ino))
                g_on_write(*n, m.off, m.data);
        if (g_on_mutation)
            g_on_mutation(cls, path);
        if (g_on_change)
            g_on_change(m.ino, path);
        if (journal_on)
            journal.push_back({m, false});
        if (!crash_image)
            for (auto& cs : cfg.crashes)
                if (!cs.fired && cs.op == cur_op() && cs.nth <= c.muts
                    && (cs.power || cs.torn < 0 || cs.nth < c.muts || m.k != Mut::WRITE))
                {
                    force_crash_now(cs);
                    cs.fired = true;
                    break;
                }
    }
}    // namespace
static void maybe_free(Disk& d, uint64_t ino)
{
    Inode* n = d.get(ino);
    if (n && n->nlink == 0 && !open_count.count({&d, ino}))
        d.inodes.erase(ino);
}
void force_crash_now(const CrashSpec& cs)
{
    if (crash_image)
        return;
    if (cs.power && journal_on)
    {
        crash_image = power_image(cs.seed);
        crash_power = true;
        ++R->crashes_power;
    }
    else
    {
        crash_image = disk->clone();
        crash_image->drop_orphans();
        crash_power = false;
        ++R->crashes_proc;
    }
    crash_op = cs.op;
    trace("crash(%s) in op %d", crash_power ? "power" : "process", cs.op);
}
bool crash_fired() { return crash_image != nullptr; }
std::shared_ptr<Disk> take_crash_image(bool* was_power, int* op)
{
    auto d = crash_image;
    crash_image.reset();
    if (was_power)
        *was_power = crash_power;
    if (op)
        *op = crash_op;
    return d;
}
void install_disk(std::shared_ptr<Disk> d)
{
    disk = d;
    ++g_pid;    // the next process
    memset(g_sig, 0, sizeof g_sig);
    fds.clear();
    open_count.clear();
    flocks.clear();
    counters.clear();
    if (journal_on)
        journal_enable(true);
}
void journal_enable(bool on)
{
    journal_on = on;
    journal.clear();
    committed_meta = 0;
    if (on)
        journal_base = disk->clone();
}
size_t open_sim_fds()
{
    size_t n = 0;
    for (auto& f : fds)
        n += !f.second->pipe;    // the one of the signal handler stays
    return n;
}
uint64_t mutation_count() { return mut_total; }
uint64_t faults_total()
{
    uint64_t n = R->shorts_fired;
    for (auto x : R->faults_fired)
        n += x;
    return n;
}

// ------------------------------------------------------------------ syscall prologue
namespace
{
    bool ends_with_meta(const std::string& p)
    {
        return p.size() > 5 && p.compare(p.size() - 5, 5, ".meta") == 0;
    }
    // what the plan injects here: 0 or an errno; shortlen set for short transfers
    int planned(int cls, int64_t* shortlen, uint64_t len)
    {
        auto& c = ctr();
        int n = ++c.n[cls];
        if (!g_io_faults_enabled)
            return 0;
        for (auto& f : cfg.faults)
            if (f.cls == cls && f.op == cur_op() && n >= f.nth && n < f.nth + f.count)
            {
                if (f.err == 0)
                {
                    if (shortlen && len > 1)
                    {
                        *shortlen = 1 + (int64_t)((uint64_t)f.shortlen % (len - 1));
                        f.fired = true;
                        ++R->shorts_fired;
                        trace("fault short %s #%d -> %lld", kClsName[cls], n, (long long)*shortlen);
                        return 0;
                    }
                    continue;
                }
                f.fired = true;
                ++R->faults_fired[cls];
                if (f.err < 0)
                {
                    // a slow disk
                    int64_t d = f.shortlen;
                    trace("stall %s #%d for %lld ns", kClsName[cls], n, (long long)d);
                    sleep_until(now_ns() + d);
                    return 0;
                }
                trace("fault %s #%d -> errno %d", kClsName[cls], n, f.err);
                return f.err;
            }
        return 0;
    }
    // returns 0 or an errno to inject; shortlen set for short transfers
    int enter(int cls, int64_t* shortlen = nullptr, uint64_t len = 0)
    {
        yield(10);
        ++R->syscalls;
        advance_ns(20000);
        if (shortlen)
            *shortlen = -1;
        int e = planned(cls, shortlen, len);
        if (e || !g_io_faults_enabled || (shortlen && *shortlen >= 0))
            return e;
        if (shortlen && len > 1 && (cfg.short_io_per_mille || cfg.eintr_per_mille))
        {
            if (!io_rng_init)
            {
                io_rng = Rng(cfg.io_seed);
                io_rng_init = true;
            }
            if (io_rng.below(1000) < cfg.short_io_per_mille)
            {
                *shortlen = 1 + (int64_t)io_rng.below(len - 1);
                ++R->shorts_fired;
                return 0;
            }
            if (io_rng.below(1000) < cfg.eintr_per_mille)
            {
                ++R->faults_fired[cls];
                return EINTR;
            }
        }
        return 0;
    }
    int fail(int e)
    {
        errno = e;
        return -1;
    }
    int tr(const char* what, const std::string& p, long long rc, int err)
    {
        trace("%s(%s) = %lld%s", what, p.c_str(), rc, rc < 0 ? strf(" errno %d", err).c_str() : "");
        if (rc < 0)
            errno = err;
        return (int)rc;
    }

    std::shared_ptr<OpenFile> getf(int fd)
    {
        auto it = fds.find(fd);
        return it == fds.end() ? nullptr : it->second;
    }
    bool is_sim_fd(int fd) { return fd >= FD_BASE; }
    bool is_sim_path(const char* p)
    {
        return p && strncmp(p, "/simroot", 8) == 0 && (p[8] == 0 || p[8] == '/');
    }
    bool sim_at(int dirfd, const char* p)
    {
        if (!p)
            return is_sim_fd(dirfd);
        if (p[0] == '/')
            return is_sim_path(p);
        return is_sim_fd(dirfd);
    }
    struct Walk
    {
        int err = 0;
        uint64_t dir = 0;     // parent inode
        std::string name;     // last component ("" if path is the root or ends with . / ..)
        uint64_t ino = 0;     // 0 if absent
        bool trailing = false;
    };
    Walk walk(int dirfd, std::string path, bool follow, int depth = 0)
    {
        Walk w;
        if (depth > 40)
        {
            w.err = ELOOP;
            return w;
        }
        if (path.size() >= PATH_MAX)
        {
            w.err = ENAMETOOLONG;
            return w;
        }
        if (path.empty())
        {
            w.err = ENOENT;
            return w;
        }
        uint64_t cur;
        if (path[0] == '/')
            cur = 1;
        else
        {
            auto f = getf(dirfd);
            if (!f)
            {
                w.err = EBADF;
                return w;
            }
            cur = f->ino;
        }
        size_t i = 0;
        w.ino = cur;
        w.dir = cur;
        for (;;)
        {
            while (i < path.size() && path[i] == '/')
                ++i;
            if (i >= path.size())
                break;
            size_t j = path.find('/', i);
            if (j == std::string::npos)
                j = path.size();
            std::string comp = path.substr(i, j - i);
            i = j;
            size_t k = i;
            while (k < path.size() && path[k] == '/')
                ++k;
            bool last = k >= path.size();
            if (last)
                w.trailing = k > i;
            Inode* d = disk->get(cur);
            if (!d)
            {
                w.err = ENOENT;
                return w;
            }
            if (!S_ISDIR(d->mode))
            {
                w.err = ENOTDIR;
                return w;
            }
            if (comp.size() > 255)
            {
                w.err = ENAMETOOLONG;
                return w;
            }
            w.dir = cur;
            if (comp == ".")
            {
                w.ino = cur;
                w.name = "";
                continue;
            }
            if (comp == "..")
            {
                cur = d->parent;
                w.ino = cur;
                w.name = "";
                continue;
            }
            w.name = comp;
            auto it = d->ents.find(comp);
            if (it == d->ents.end())
            {
                w.ino = 0;
                if (last)
                    return w;
                w.err = ENOENT;
                return w;
            }
            Inode* n = disk->get(it->second);
            if (n && S_ISLNK(n->mode) && (!last || follow || w.trailing))
            {
                std::string rest = n->target;
                if (!last)
                    rest += path.substr(i);
                // resolve relative to cur
                if (rest.empty())
                {
                    w.err = ENOENT;
                    return w;
                }
                if (rest[0] == '/')
                    return walk(dirfd, rest, follow, depth + 1);
                // temporary descriptor-free relative resolution: rebuild the absolute path
                std::string abs;
                uint64_t up = cur;
                while (up != 1)
                {
                    Inode* un = disk->get(up);
                    Inode* pp = disk->get(un->parent);
                    for (auto& e : pp->ents)
                        if (e.second == up)
                        {
                            abs = "/" + e.first + abs;
                            break;
                        }
                    up = un->parent;
                }
                return walk(dirfd, abs + "/" + rest, follow, depth + 1);
            }
            cur = it->second;
            w.ino = cur;
        }
        return w;
    }
    std::string pstr(int dirfd, const char* p)
    {
        if (!p)
            return strf("fd%d", dirfd);
        if (p[0] != '/' && is_sim_fd(dirfd))
        {
            auto f = getf(dirfd);
            return strf("#%llu:%s", f ? (unsigned long long)f->ino : 0ull, p);
        }
        return p;
    }
    bool over_capacity(uint64_t more)
    {
        if (cfg.disk_capacity == ~0ull || !g_io_faults_enabled)
            return false;
        return disk->used_bytes() + more > cfg.disk_capacity;
    }
    void fill_stat(const Inode& n, struct stat* st)
    {
        memset(st, 0, sizeof *st);
        st->st_dev = 77;
        st->st_ino = n.ino;
        st->st_mode = n.mode;
        st->st_nlink = n.nlink;
        st->st_uid = n.uid;
        st->st_gid = n.gid;
        st->st_size = S_ISDIR(n.mode) ? 4096 : n.size;
        st->st_blksize = 4096;
        st->st_blocks = 8 * n.pages.size();
        st->st_atim = n.at;
        st->st_mtim = n.mt;
        st->st_ctim = n.ct;
    }
    int alloc_fd(std::shared_ptr<OpenFile> f)
    {
        int fd = FD_BASE;
        for (auto& p : fds)
        {
            if (p.first != fd)
                break;
            ++fd;
        }
        fds[fd] = f;
        if (f->d)
            ++open_count[{f->d.get(), f->ino}];
        return fd;
    }

    struct Child
    {
        std::map<int, std::shared_ptr<OpenFile>> tab;
        int pid = 0, id = 0, rc = 0, sig = 0;
        bool done = false, reaped = false;
    } g_child;
    std::map<const void*, std::vector<std::pair<int, int>>> g_actions;
    ssize_t pipe_read(OpenFile& f, void* buf, size_t n)
    {
        auto p = f.pipe;
        yield(15);
        while (p->buf.empty())
        {
            test_cancel();
            if (f.flags & O_NONBLOCK)
                return fail(EAGAIN);
            if (!p->ends[1])
                return 0;
            block_on(p.get());
            if (p->buf.empty() && p->ends[1] && cfg.eintr_per_mille)
                return fail(EINTR);
        }
        hb_acquire(p.get());
        n = std::min(n, p->buf.size());
        memcpy(buf, p->buf.data(), n);
        p->buf.erase(0, n);
        wake_all(p.get());
        return n;
    }
    ssize_t pipe_write(OpenFile& f, const void* buf, size_t n)
    {
        auto p = f.pipe;
        yield(16);
        if (n > 1 && (cfg.short_io_per_mille || cfg.eintr_per_mille))    // a signal arrives
            n = 1 + mix64(cfg.seed, n + p->buf.size()) % n;
        n = std::min<size_t>(n, 4096);
        while (p->ends[0] && p->buf.size() + n > 4096)
        {
            if (f.flags & O_NONBLOCK)
                return fail(EAGAIN);
            test_cancel();
            block_on(p.get());
        }
        if (!p->ends[0])
            return fail(EPIPE);
        hb_release(p.get());
        p->buf.append((const char*)buf, n);
        wake_all(p.get());
        return n;
    }
    int sim_open(int dirfd, const char* path, int flags, mode_t mode)
    {
        test_cancel();
        int e = enter(C_OPEN);
        if (e)
            return fail(e);
        std::string ps = pstr(dirfd, path);
        bool nofollow = (flags & O_NOFOLLOW) || ((flags & O_CREAT) && (flags & O_EXCL));
        Walk w = walk(dirfd, path, !nofollow);
        if (w.err)
            return tr("open", ps, -1, w.err);
        uint64_t ino = w.ino;
        if (!ino)
        {
            if (!(flags & O_CREAT))
                return tr("open", ps, -1, ENOENT);
            if (w.trailing)
                return tr("open", ps, -1, EISDIR);
            Inode* d = disk->get(w.dir);
            if (!d || d->nlink == 0)
                return tr("open", ps, -1, ENOENT);
            if (over_capacity(512))
            {
                ++R->faults_fired[C_OPEN];
                return tr("open", ps, -1, ENOSPC);
            }
            Mut m;
            m.k = Mut::CREATE;
            m.ino = ino = disk->next_ino;
            m.a = w.dir;
            m.name = w.name;
            m.mode = S_IFREG | (mode & 07777);
            auto f = std::make_shared<OpenFile>();
            f->d = disk;
            f->ino = ino;
            f->flags = flags;
            f->meta = ends_with_meta(ps);
            int fd = alloc_fd(f);
            if (g_on_open)
                g_on_open(ino, ps);
            do_mut(m, C_OPEN, ps);
            return tr("open+creat", ps, fd, 0);
        }
        if ((flags & O_CREAT) && (flags & O_EXCL))
            return tr("open", ps, -1, EEXIST);
        Inode* n = disk->get(ino);
        if (S_ISLNK(n->mode))
            return tr("open", ps, -1, ELOOP);
        int acc = flags & O_ACCMODE;
        if (S_ISDIR(n->mode) && (acc != O_RDONLY || (flags & O_CREAT)))
            return tr("open", ps, -1, EISDIR);
        if (!S_ISDIR(n->mode) && ((flags & O_DIRECTORY) || w.trailing))
            return tr("open", ps, -1, ENOTDIR);
        auto f = std::make_shared<OpenFile>();
        f->d = disk;
        f->ino = ino;
        f->flags = flags;
        f->meta = ends_with_meta(ps);
        int fd = alloc_fd(f);
        if (g_on_open)
            g_on_open(ino, ps);
        if ((flags & O_TRUNC) && S_ISREG(n->mode) && n->size)
        {
            Mut m;
            m.k = Mut::TRUNC;
            m.ino = ino;
            m.off = 0;
            do_mut(m, C_TRUNC, ps);
        }
        return tr("open", ps, fd, 0);
    }
    int sim_close(int fd)
    {
        test_cancel();
        yield(11);
        auto f = getf(fd);
        if (!f)
        {
            // closing twice / foreign descriptor is a bug of the code under test unless the disk
            // was replaced by a crash meanwhile
            return fail(EBADF);
        }
        fds.erase(fd);
        if (f->flock)
        {
            auto& s = flocks[{f->d.get(), f->ino}];
            if (f->flock == 2)
                s.excl = nullptr;
            else
                --s.shared;
            f->flock = 0;
            wake_all((char*)f->d.get() + f->ino);
        }
        if (f->d)
        {
            auto it = open_count.find({f->d.get(), f->ino});
            if (it != open_count.end() && --it->second == 0)
            {
                open_count.erase(it);
                maybe_free(*f->d, f->ino);
            }
        }
        return tr("close", strf("#%llu", (unsigned long long)f->ino), 0, 0);
    }
    ssize_t sim_pread(int fd, void* buf, size_t n, int64_t off, bool seq)
    {
        test_cancel();
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        if (f->pipe)
            return f->pipe_end == 0 ? pipe_read(*f, buf, n) : fail(EBADF);
        if (f->urandom)
        {
            if (!ent_init)
            {
                ent_rng = Rng(cfg.seed);
                ent_init = true;
            }
            uint8_t* o = (uint8_t*)buf;
            for (size_t i = 0; i < n; ++i)
                o[i] = (uint8_t)ent_rng.next();
            g_random_bytes_drawn += n;
            return n;
        }
        int64_t sl;
        int e = enter(C_READ, &sl, n);
        if (e)
            return fail(e);
        Inode* nd = f->d->get(f->ino);
        if (!nd)
            return fail(EIO);
        if (S_ISDIR(nd->mode))
            return fail(EISDIR);
        if ((f->flags & O_ACCMODE) == O_WRONLY)
            return fail(EBADF);
        if (off < 0)
            return fail(EINVAL);
        uint64_t pos = seq ? f->pos : (uint64_t)off;
        uint64_t want = sl >= 0 ? (uint64_t)sl : n;
        std::string d = nd->read(pos, want);
        memcpy(buf, d.data(), d.size());
        if (seq)
            f->pos += d.size();
        trace("read(#%llu, off %llu, len %zu) = %zu",
              (unsigned long long)f->ino,
              (unsigned long long)pos,
              n,
              d.size());
        return d.size();
    }
    ssize_t sim_pwrite(int fd, const void* buf, size_t n, int64_t off, bool seq)
    {
        test_cancel();
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        if (f->pipe)
            return f->pipe_end == 1 ? pipe_write(*f, buf, n) : fail(EBADF);
        int64_t sl;
        int e = enter(C_WRITE, &sl, n);
        if (!e && sl < 0 && !f->meta)
            e = planned(C_DWRITE, &sl, n);
        if (e)
            return fail(e);
        Inode* nd = f->d->get(f->ino);
        if (!nd)
            return fail(EIO);
        if ((f->flags & O_ACCMODE) == O_RDONLY)
            return tr("write", strf("#%llu", (unsigned long long)f->ino), -1, EBADF);
        if (off < 0)
            return fail(EINVAL);
        uint64_t pos = seq ? f->pos : (uint64_t)off;
        if (seq && (f->flags & O_APPEND))
            pos = nd->size;
        if (n == 0)
            return 0;
        uint64_t want = sl >= 0 ? (uint64_t)sl : n;
        if (over_capacity(want + 8192))
        {
            // pages already present may be overwritten
            bool need = false;
            for (uint64_t p = pos / 4096; p <= (pos + want - 1) / 4096; ++p)
                need |= !nd->pages.count(p);
            if (need)
            {
                ++R->faults_fired[C_WRITE];
                return tr("write", strf("#%llu", (unsigned long long)f->ino), -1, ENOSPC);
            }
        }
        trace("write(#%llu, off %llu, len %zu) = %llu h=%llx",
              (unsigned long long)f->ino,
              (unsigned long long)pos,
              n,
              (unsigned long long)want,
              (unsigned long long)hash_str(std::string_view((const char*)buf, want)));
        Mut m;
        m.k = Mut::WRITE;
        m.ino = f->ino;
        m.off = pos;
        m.data.assign((const char*)buf, want);
        if (f->d == disk)
            do_mut(m, C_WRITE, strf("#%llu", (unsigned long long)f->ino));
        else
            f->d->apply(m);
        if (seq)
            f->pos = pos + want;
        return want;
    }
    int meta_mut(int cls, const std::string& ps, Mut m)
    {
        do_mut(m, cls, ps);
        return tr(kClsName[cls], ps, 0, 0);
    }
    int sim_truncate_ino(uint64_t ino, int64_t len, const std::string& ps)
    {
        Inode* n = disk->get(ino);
        if (!n)
            return fail(ENOENT);
        if (S_ISDIR(n->mode))
            return fail(EISDIR);
        if (len < 0)
            return fail(EINVAL);
        if ((uint64_t)len > (1ull << 60))
            return fail(EFBIG);
        Mut m;
        m.k = Mut::TRUNC;
        m.ino = ino;
        m.off = len;
        trace("truncate(%s, %lld)", ps.c_str(), (long long)len);
        return meta_mut(C_TRUNC, ps, m);
    }
    int sim_unlinkat(int dirfd, const char* path, int flags)
    {
        bool rmd = flags & AT_REMOVEDIR;
        int e = enter(rmd ? C_RMDIR : C_UNLINK);
        if (e)
            return fail(e);
        std::string ps = pstr(dirfd, path);
        Walk w = walk(dirfd, path, false);
        const char* nm = rmd ? "rmdir" : "unlink";
        if (w.err)
            return tr(nm, ps, -1, w.err);
        if (!w.ino)
            return tr(nm, ps, -1, ENOENT);
        if (w.name.empty())
            return tr(nm, ps, -1, EINVAL);
        Inode* n = disk->get(w.ino);
        if (rmd)
        {
            if (!S_ISDIR(n->mode))
                return tr(nm, ps, -1, ENOTDIR);
            if (!n->ents.empty())
                return tr(nm, ps, -1, ENOTEMPTY);
        }
        else if (S_ISDIR(n->mode))
            return tr(nm, ps, -1, EISDIR);
        Mut m;
        m.k = Mut::UNLINK;
        m.a = w.dir;
        m.name = w.name;
        return meta_mut(rmd ? C_RMDIR : C_UNLINK, ps, m);
    }
    int sim_mkdirat(int dirfd, const char* path, mode_t mode)
    {
        int e = enter(C_MKDIR);
        if (e)
            return fail(e);
        std::string ps = pstr(dirfd, path);
        Walk w = walk(dirfd, path, false);
        if (w.err)
            return tr("mkdir", ps, -1, w.err);
        if (w.ino)
            return tr("mkdir", ps, -1, EEXIST);
        Inode* d = disk->get(w.dir);
        if (!d || d->nlink == 0)
            return tr("mkdir", ps, -1, ENOENT);
        if (over_capacity(512))
        {
            ++R->faults_fired[C_MKDIR];
            return tr("mkdir", ps, -1, ENOSPC);
        }
        Mut m;
        m.k = Mut::CREATE;
        m.ino = disk->next_ino;
        m.a = w.dir;
        m.name = w.name;
        m.mode = S_IFDIR | (mode & 07777);
        return meta_mut(C_MKDIR, ps, m);
    }
    bool is_ancestor(uint64_t a, uint64_t b)    // a is b or an ancestor of b
    {
        for (int i = 0; i < 1000; ++i)
        {
            if (a == b)
                return true;
            if (b == 1)
                return false;
            Inode* n = disk->get(b);
            if (!n)
                return false;
            b = n->parent;
        }
        return false;
    }
    int sim_renameat(int fa, const char* a, int fb, const char* b)
    {
        int e = enter(C_RENAME);
        if (e)
            return fail(e);
        std::string ps = pstr(fa, a) + " -> " + pstr(fb, b);
        Walk x = walk(fa, a, false), y = walk(fb, b, false);
        if (x.err || y.err)
            return tr("rename", ps, -1, x.err ? x.err : y.err);
        if (!x.ino)
            return tr("rename", ps, -1, ENOENT);
        if (x.name.empty() || y.name.empty())
            return tr("rename", ps, -1, EBUSY);
        Inode* n = disk->get(x.ino);
        Inode* db = disk->get(y.dir);
        if (!db || db->nlink == 0)
            return tr("rename", ps, -1, ENOENT);
        bool isdir = S_ISDIR(n->mode);
        if (isdir && is_ancestor(x.ino, y.dir))
            return tr("rename", ps, -1, EINVAL);
        if (!isdir && (x.trailing || y.trailing))
            return tr("rename", ps, -1, ENOTDIR);
        if (y.ino)
        {
            if (y.ino == x.ino)
                return tr("rename", ps, 0, 0);
            Inode* v = disk->get(y.ino);
            if (isdir)
            {
                if (!S_ISDIR(v->mode))
                    return tr("rename", ps, -1, ENOTDIR);
                if (!v->ents.empty())
                    return tr("rename", ps, -1, ENOTEMPTY);
            }
            else if (S_ISDIR(v->mode))
                return tr("rename", ps, -1, EISDIR);
        }
        Mut m;
        m.k = Mut::RENAME;
        m.a = x.dir;
        m.name = x.name;
        m.b = y.dir;
        m.name2 = y.name;
        return meta_mut(C_RENAME, ps, m);
    }
    int sim_linkat(int fa, const char* a, int fb, const char* b)
    {
        int e = enter(C_LINK);
        if (e)
            return fail(e);
        std::string ps = pstr(fa, a) + " -> " + pstr(fb, b);
        Walk x = walk(fa, a, false), y = walk(fb, b, false);
        if (x.err || y.err)
            return tr("link", ps, -1, x.err ? x.err : y.err);
        if (!x.ino)
            return tr("link", ps, -1, ENOENT);
        if (y.ino)
            return tr("link", ps, -1, EEXIST);
        if (S_ISDIR(disk->get(x.ino)->mode))
            return tr("link", ps, -1, EPERM);
        Mut m;
        m.k = Mut::LINK;
        m.ino = x.ino;
        m.a = y.dir;
        m.name = y.name;
        return meta_mut(C_LINK, ps, m);
    }
    int sim_symlinkat(const char* target, int fd, const char* path)
    {
        int e = enter(C_SYMLINK);
        if (e)
            return fail(e);
        std::string ps = pstr(fd, path);
        Walk w = walk(fd, path, false);
        if (w.err)
            return tr("symlink", ps, -1, w.err);
        if (w.ino)
            return tr("symlink", ps, -1, EEXIST);
        if (strlen(target) >= PATH_MAX)
            return tr("symlink", ps, -1, ENAMETOOLONG);
        if (!*target)
            return tr("symlink", ps, -1, ENOENT);
        Mut m;
        m.k = Mut::CREATE;
        m.ino = disk->next_ino;
        m.a = w.dir;
        m.name = w.name;
        m.mode = S_IFLNK | 0777;
        m.data = target;
        return meta_mut(C_SYMLINK, ps, m);
    }
    ssize_t sim_readlinkat(int fd, const char* path, char* buf, size_t n)
    {
        int e = enter(C_READLINK);
        if (e)
            return fail(e);
        std::string ps = pstr(fd, path);
        Walk w = walk(fd, path, false);
        if (w.err || !w.ino)
            return tr("readlink", ps, -1, w.err ? w.err : ENOENT);
        Inode* i = disk->get(w.ino);
        if (!S_ISLNK(i->mode))
            return tr("readlink", ps, -1, EINVAL);
        size_t k = std::min(n, i->target.size());
        memcpy(buf, i->target.data(), k);
        return tr("readlink", ps, (long long)k, 0);
    }
    int sim_statat(int fd, const char* path, struct stat* st, int flags)
    {
        int e = enter(C_STAT);
        if (e)
            return fail(e);
        if ((flags & AT_EMPTY_PATH) && (!path || !*path))
        {
            auto f = getf(fd);
            if (!f)
                return fail(EBADF);
            fill_stat(*f->d->get(f->ino), st);
            return 0;
        }
        std::string ps = pstr(fd, path);
        Walk w = walk(fd, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err || !w.ino)
            return tr("stat", ps, -1, w.err ? w.err : ENOENT);
        Inode* n = disk->get(w.ino);
        if (w.trailing && !S_ISDIR(n->mode))
            return tr("stat", ps, -1, ENOTDIR);
        fill_stat(*n, st);
        return tr("stat", ps, 0, 0);
    }
    int sim_fstat(int fd, struct stat* st)
    {
        int e = enter(C_STAT);
        if (e)
            return fail(e);
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        Inode* n = f->d ? f->d->get(f->ino) : nullptr;
        if (!n)
            return fail(EIO);
        fill_stat(*n, st);
        trace("fstat(#%llu) size=%llu", (unsigned long long)f->ino, (unsigned long long)n->size);
        return 0;
    }
    int set_attr(int cls, uint64_t ino, Mut m, const std::string& ps)
    {
        m.k = Mut::ATTR;
        m.ino = ino;
        return meta_mut(cls, ps, m);
    }
    int attr_at(int cls, int fd, const char* path, int flags, Mut m)
    {
        int e = enter(cls);
        if (e)
            return fail(e);
        std::string ps = pstr(fd, path);
        if (!path)
        {
            auto f = getf(fd);
            if (!f)
                return fail(EBADF);
            return set_attr(cls, f->ino, m, ps);
        }
        Walk w = walk(fd, path, !(flags & AT_SYMLINK_NOFOLLOW));
        if (w.err || !w.ino)
            return tr(kClsName[cls], ps, -1, w.err ? w.err : ENOENT);
        if (cls == C_CHMOD && S_ISLNK(disk->get(w.ino)->mode))
            return tr(kClsName[cls], ps, -1, EOPNOTSUPP);
        return set_attr(cls, w.ino, m, ps);
    }
    int utimens_at(int fd, const char* path, const timespec ts[2], int flags)
    {
        Mut m;
        timespec now = ts_now();
        if (!ts)
        {
            m.what = 12;
            m.t = m.t2 = now;
        }
        else
        {
            for (int k = 0; k < 2; ++k)
                if (ts[k].tv_nsec != UTIME_NOW && ts[k].tv_nsec != UTIME_OMIT
                    && (ts[k].tv_nsec < 0 || ts[k].tv_nsec > 999999999))
                    return fail(EINVAL);
            if (ts[0].tv_nsec != UTIME_OMIT)
            {
                m.what |= 4;
                m.t = ts[0].tv_nsec == UTIME_NOW ? now : ts[0];
            }
            if (ts[1].tv_nsec != UTIME_OMIT)
            {
                m.what |= 8;
                m.t2 = ts[1].tv_nsec == UTIME_NOW ? now : ts[1];
            }
        }
        return attr_at(C_UTIMENS, fd, path, flags, m);
    }
    // xattrs
    uint64_t xnode(int fd, const char* path, bool follow, int* err)
    {
        if (!path)
        {
            auto f = getf(fd);
            if (!f)
            {
                *err = EBADF;
                return 0;
            }
            return f->ino;
        }
        Walk w = walk(-1, path, follow);
        if (w.err || !w.ino)
        {
            *err = w.err ? w.err : ENOENT;
            return 0;
        }
        return w.ino;
    }
    bool user_ns(const char* name) { return strncmp(name, "user.", 5) == 0; }
    ssize_t sim_getxattr(int fd, const char* path, bool fl, const char* name, void* v, size_t sz)
    {
        int e = enter(C_XATTR);
        if (e)
            return fail(e);
        int err = 0;
        uint64_t ino = xnode(fd, path, fl, &err);
        if (!ino)
            return fail(err);
        Inode* n = disk->get(ino);
        if (!user_ns(name) && strncmp(name, "trusted.", 8) && strncmp(name, "security.", 9))
            return tr("getxattr", name, -1, EOPNOTSUPP);
        auto it = n->xattrs.find(name);
        if (it == n->xattrs.end())
            return tr("getxattr", name, -1, ENODATA);
        if (sz == 0)
            return tr("getxattr", name, it->second.size(), 0);
        if (sz < it->second.size())
            return tr("getxattr", name, -1, ERANGE);
        memcpy(v, it->second.data(), it->second.size());
        return tr("getxattr", name, it->second.size(), 0);
    }
    ssize_t sim_listxattr(int fd, const char* path, bool fl, char* v, size_t sz)
    {
        int e = enter(C_XATTR);
        if (e)
            return fail(e);
        int err = 0;
        uint64_t ino = xnode(fd, path, fl, &err);
        if (!ino)
            return fail(err);
        std::string s;
        for (auto& p : disk->get(ino)->xattrs)
            s += p.first + std::string(1, '\0');
        if (sz == 0)
            return tr("listxattr", "", s.size(), 0);
        if (sz < s.size())
            return tr("listxattr", "", -1, ERANGE);
        memcpy(v, s.data(), s.size());
        return tr("listxattr", "", s.size(), 0);
    }
    int sim_setxattr(
        int fd, const char* path, bool fl, const char* name, const void* v, size_t sz, int flags)
    {
        int e = enter(C_XATTR);
        if (e)
            return fail(e);
        int err = 0;
        uint64_t ino = xnode(fd, path, fl, &err);
        if (!ino)
            return fail(err);
        if (strlen(name) > 255)
            return tr("setxattr", name, -1, ERANGE);
        if (sz > 65536)
            return tr("setxattr", name, -1, E2BIG);
        Inode* n = disk->get(ino);
        if (user_ns(name) ? !(S_ISREG(n->mode) || S_ISDIR(n->mode)) : false)
            return tr("setxattr", name, -1, EPERM);
        if (!user_ns(name) && strncmp(name, "trusted.", 8) && strncmp(name, "security.", 9))
            return tr("setxattr", name, -1, EOPNOTSUPP);
        bool has = n->xattrs.count(name);
        if ((flags & XATTR_CREATE) && has)
            return tr("setxattr", name, -1, EEXIST);
        if ((flags & XATTR_REPLACE) && !has)
            return tr("setxattr", name, -1, ENODATA);
        Mut m;
        m.k = Mut::XSET;
        m.ino = ino;
        m.name = name;
        m.data.assign((const char*)v, sz);
        return meta_mut(C_XATTR, name, m);
    }
    int sim_removexattr(int fd, const char* path, bool fl, const char* name)
    {
        int e = enter(C_XATTR);
        if (e)
            return fail(e);
        int err = 0;
        uint64_t ino = xnode(fd, path, fl, &err);
        if (!ino)
            return fail(err);
        if (!disk->get(ino)->xattrs.count(name))
            return tr("removexattr", name, -1, ENODATA);
        Mut m;
        m.k = Mut::XDEL;
        m.ino = ino;
        m.name = name;
        return meta_mut(C_XATTR, name, m);
    }
    int sim_fsync(int fd)
    {
        test_cancel();
        int e = enter(C_FSYNC);
        if (e)
            return fail(e);
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        trace("fsync(#%llu)", (unsigned long long)f->ino);
        if (journal_on && f->d == disk)
        {
            committed_meta = journal.size();
            for (auto& j : journal)
                if (is_data(j.m) && j.m.ino == f->ino)
                    j.durable_data = true;
        }
        ++mut_total;
        return 0;
    }
    int sim_flock(int fd, int op)
    {
        int e = (op & LOCK_UN) ? (yield(12), 0) : enter(C_FLOCK);
        if (e)
            return fail(e);
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        auto key = std::make_pair(f->d.get(), f->ino);
        void* wk = (char*)f->d.get() + f->ino;
        auto release = [&]()
        {
            auto& s = flocks[key];
            if (f->flock == 2)
                s.excl = nullptr;
            else if (f->flock == 1)
                --s.shared;
            if (f->flock)
                wake_all(wk);
            f->flock = 0;
        };
        if (op & LOCK_UN)
        {
            release();
            return 0;
        }
        bool ex = op & LOCK_EX;
        if (f->flock == (ex ? 2 : 1))
            return 0;
        release();
        for (;;)
        {
            auto& s = flocks[key];
            bool ok = ex ? (!s.excl && s.shared == 0) : !s.excl;
            if (ok)
            {
                if (ex)
                    s.excl = f.get();
                else
                    ++s.shared;
                f->flock = ex ? 2 : 1;
                return 0;
            }
            if (op & LOCK_NB)
                return tr("flock", strf("#%llu", (unsigned long long)f->ino), -1, EWOULDBLOCK);
            block_on(wk);
        }
    }

    template <class T>
    T rs(const char* n)
    {
        return reinterpret_cast<T>(dlsym(RTLD_NEXT, n));
    }
}    // namespace
}    // namespace sim

using namespace sim;

// ====================================================================== libc entry points
namespace sim
{
void child_exits(int rc, int sig)
{
    g_child.rc = rc;
    g_child.sig = sig;
    g_child.done = true;
    g_child.tab.clear();
    wake_all(&g_child);
}
void (*g_on_process)(int from, int to) = nullptr;
static int g_process = 0;
void resumed()
{
    if (tl_pid == g_process)
        return;
    int from = g_process;
    g_process = tl_pid;
    if (g_on_process)
        g_on_process(from, tl_pid);
}
void become(int pid)
{
    tl_pid = pid;
    resumed();
}
}    // namespace sim
extern "C"
{
    int openat(int dirfd, const char* path, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE))
        {
            va_list ap;
            va_start(ap, flags);
            mode = va_arg(ap, mode_t);
            va_end(ap);
        }
        if (R && sim_at(dirfd, path))
            return sim_open(dirfd, path, flags, mode);
        if (R && path && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")))
        {
            auto f = std::make_shared<OpenFile>();
            f->urandom = true;
            return alloc_fd(f);
        }
        return (int)syscall(SYS_openat, dirfd, path, flags, mode);
    }
    int openat64(int dirfd, const char* path, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE))
        {
            va_list ap;
            va_start(ap, flags);
            mode = va_arg(ap, mode_t);
            va_end(ap);
        }
        return openat(dirfd, path, flags, mode);
    }
    int open(const char* path, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE))
        {
            va_list ap;
            va_start(ap, flags);
            mode = va_arg(ap, mode_t);
            va_end(ap);
        }
        return openat(AT_FDCWD, path, flags, mode);
    }
    int open64(const char* path, int flags, ...)
    {
        mode_t mode = 0;
        if (flags & (O_CREAT | O_TMPFILE))
        {
            va_list ap;
            va_start(ap, flags);
            mode = va_arg(ap, mode_t);
            va_end(ap);
        }
        return openat(AT_FDCWD, path, flags, mode);
    }
    int close(int fd)
    {
        if (is_sim_fd(fd))
            return sim_close(fd);
        return (int)syscall(SYS_close, fd);
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        if (is_sim_fd(fd))
            return sim_pread(fd, b, n, 0, true);
        if (R && self_id() >= 0 && fd < 3 && g_child.tab.count(fd) && tl_pid == g_child.pid)
            return pipe_read(*g_child.tab[fd], b, n);
        if (R && self_id() >= 0 && fd == 0 && g_on_stdin)
        {
            if (int e = enter(C_READ))
                return fail(e);
            return g_on_stdin(b, n);
        }
        return syscall(SYS_read, fd, b, n);
    }
    ssize_t pread(int fd, void* b, size_t n, off_t o)
    {
        if (is_sim_fd(fd))
            return sim_pread(fd, b, n, o, false);
        return syscall(SYS_pread64, fd, b, n, o);
    }
    ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
    ssize_t write(int fd, const void* b, size_t n)
    {
        if (is_sim_fd(fd))
            return sim_pwrite(fd, b, n, 0, true);
        return syscall(SYS_write, fd, b, n);
    }
    ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
    {
        if (is_sim_fd(fd))
            return sim_pwrite(fd, b, n, o, false);
        return syscall(SYS_pwrite64, fd, b, n, o);
    }
    ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
    off_t lseek(int fd, off_t o, int wh) noexcept
    {
        if (!is_sim_fd(fd))
            return syscall(SYS_lseek, fd, o, wh);
        auto f = getf(fd);
        if (!f)
            return fail(EBADF);
        Inode* n = f->d->get(f->ino);
        int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)n->size;
        if (base + o < 0)
            return fail(EINVAL);
        f->pos = base + o;
        return f->pos;
    }
    off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
    int ftruncate(int fd, off_t n) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_ftruncate, fd, n);
        int e = enter(C_TRUNC);
        auto f = getf(fd);
        // giving space back needs no space
        if ((e == ENOSPC || e == EDQUOT || e == EFBIG) && f && f->d == disk)
            if (auto it = disk->inodes.find(f->ino); it != disk->inodes.end() && n <= (off_t)it->second->size)
                e = 0;
        if (e)
            return fail(e);
        if (!f)
            return fail(EBADF);
        if ((f->flags & O_ACCMODE) == O_RDONLY)
            return fail(EINVAL);
        if (f->d != disk)
            return 0;
        return sim_truncate_ino(f->ino, n, strf("#%llu", (unsigned long long)f->ino));
    }
    int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
    int truncate(const char* p, off_t n) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_truncate, p, n);
        int e = enter(C_TRUNC);
        if (e)
            return fail(e);
        Walk w = walk(AT_FDCWD, p, true);
        if (w.err || !w.ino)
            return fail(w.err ? w.err : ENOENT);
        return sim_truncate_ino(w.ino, n, p);
    }
    int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
    int fsync(int fd)
    {
        if (is_sim_fd(fd))
            return sim_fsync(fd);
        return (int)syscall(SYS_fsync, fd);
    }
    int fdatasync(int fd)
    {
        if (is_sim_fd(fd))
            return sim_fsync(fd);
        return (int)syscall(SYS_fdatasync, fd);
    }
    int fstat(int fd, struct stat* st) noexcept
    {
        if (is_sim_fd(fd))
            return sim_fstat(fd, st);
        return (int)syscall(SYS_fstat, fd, st);
    }
    int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*)st); }
    int fstatat(int fd, const char* p, struct stat* st, int fl) noexcept
    {
        if (sim_at(fd, p))
            return sim_statat(fd, p, st, fl);
        return (int)syscall(SYS_newfstatat, fd, p, st, fl);
    }
    int fstatat64(int fd, const char* p, struct stat64* st, int fl) noexcept
    {
        return fstatat(fd, p, (struct stat*)st, fl);
    }
    int stat(const char* p, struct stat* st) noexcept { return fstatat(AT_FDCWD, p, st, 0); }
    int stat64(const char* p, struct stat64* st) noexcept
    {
        return fstatat(AT_FDCWD, p, (struct stat*)st, 0);
    }
    int lstat(const char* p, struct stat* st) noexcept
    {
        return fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
    }
    int lstat64(const char* p, struct stat64* st) noexcept
    {
        return fstatat(AT_FDCWD, p, (struct stat*)st, AT_SYMLINK_NOFOLLOW);
    }
    int access(const char* p, int mode) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_access, p, mode);
        int e = enter(C_STAT);
        if (e)
            return fail(e);
        Walk w = walk(AT_FDCWD, p, true);
        if (w.err || !w.ino)
            return tr("access", p, -1, w.err ? w.err : ENOENT);
        return tr("access", p, 0, 0);
    }
    int faccessat(int fd, const char* p, int mode, int fl) noexcept
    {
        if (!sim_at(fd, p))
            return (int)syscall(SYS_faccessat, fd, p, mode);
        int e = enter(C_STAT);
        if (e)
            return fail(e);
        Walk w = walk(fd, p, !(fl & AT_SYMLINK_NOFOLLOW));
        if (w.err || !w.ino)
            return fail(w.err ? w.err : ENOENT);
        return 0;
    }
    int unlinkat(int fd, const char* p, int fl) noexcept
    {
        if (sim_at(fd, p))
            return sim_unlinkat(fd, p, fl);
        return (int)syscall(SYS_unlinkat, fd, p, fl);
    }
    int unlink(const char* p) noexcept { return unlinkat(AT_FDCWD, p, 0); }
    int rmdir(const char* p) noexcept { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
    int mkdirat(int fd, const char* p, mode_t m) noexcept
    {
        if (sim_at(fd, p))
            return sim_mkdirat(fd, p, m);
        return (int)syscall(SYS_mkdirat, fd, p, m);
    }
    int mkdir(const char* p, mode_t m) noexcept { return mkdirat(AT_FDCWD, p, m); }
    int renameat(int a, const char* p, int b, const char* q) noexcept
    {
        if (sim_at(a, p))
            return sim_renameat(a, p, b, q);
        return (int)syscall(SYS_renameat, a, p, b, q);
    }
    int rename(const char* p, const char* q) noexcept
    {
        return renameat(AT_FDCWD, p, AT_FDCWD, q);
    }
    int linkat(int a, const char* p, int b, const char* q, int fl) noexcept
    {
        if (sim_at(a, p))
            return sim_linkat(a, p, b, q);
        return (int)syscall(SYS_linkat, a, p, b, q, fl);
    }
    int link(const char* p, const char* q) noexcept
    {
        return linkat(AT_FDCWD, p, AT_FDCWD, q, 0);
    }
    int symlinkat(const char* t, int fd, const char* p) noexcept
    {
        if (sim_at(fd, p))
            return sim_symlinkat(t, fd, p);
        return (int)syscall(SYS_symlinkat, t, fd, p);
    }
    int symlink(const char* t, const char* p) noexcept { return symlinkat(t, AT_FDCWD, p); }
    ssize_t readlinkat(int fd, const char* p, char* b, size_t n) noexcept
    {
        if (sim_at(fd, p))
            return sim_readlinkat(fd, p, b, n);
        return syscall(SYS_readlinkat, fd, p, b, n);
    }
    ssize_t readlink(const char* p, char* b, size_t n) noexcept
    {
        return readlinkat(AT_FDCWD, p, b, n);
    }
    int fchmodat(int fd, const char* p, mode_t m, int fl) noexcept
    {
        if (!sim_at(fd, p))
            return (int)syscall(SYS_fchmodat, fd, p, m);
        Mut mu;
        mu.what = 1;
        mu.mode = m;
        return attr_at(C_CHMOD, fd, p, fl, mu);
    }
    int chmod(const char* p, mode_t m) noexcept { return fchmodat(AT_FDCWD, p, m, 0); }
    int fchmod(int fd, mode_t m) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_fchmod, fd, m);
        Mut mu;
        mu.what = 1;
        mu.mode = m;
        return attr_at(C_CHMOD, fd, nullptr, 0, mu);
    }
    int fchownat(int fd, const char* p, uid_t u, gid_t g, int fl) noexcept
    {
        if (!sim_at(fd, p))
            return (int)syscall(SYS_fchownat, fd, p, u, g, fl);
        Mut mu;
        mu.what = 2;
        mu.uid = u;
        mu.gid = g;
        return attr_at(C_CHOWN, fd, p, fl, mu);
    }
    int chown(const char* p, uid_t u, gid_t g) noexcept
    {
        return fchownat(AT_FDCWD, p, u, g, 0);
    }
    int lchown(const char* p, uid_t u, gid_t g) noexcept
    {
        return fchownat(AT_FDCWD, p, u, g, AT_SYMLINK_NOFOLLOW);
    }
    int fchown(int fd, uid_t u, gid_t g) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_fchown, fd, u, g);
        Mut mu;
        mu.what = 2;
        mu.uid = u;
        mu.gid = g;
        return attr_at(C_CHOWN, fd, nullptr, 0, mu);
    }
    int utimensat(int fd, const char* p, const timespec ts[2], int fl) noexcept
    {
        if (!sim_at(fd, p))
            return (int)syscall(SYS_utimensat, fd, p, ts, fl);
        return utimens_at(fd, p, ts, fl);
    }
    int futimens(int fd, const timespec ts[2]) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_utimensat, fd, nullptr, ts, 0);
        return utimens_at(fd, nullptr, ts, 0);
    }
    int utime(const char*, const struct utimbuf*) noexcept { return 0; }
    int flock(int fd, int op) noexcept
    {
        if (is_sim_fd(fd))
            return sim_flock(fd, op);
        return (int)syscall(SYS_flock, fd, op);
    }
    int fcntl64(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        void* arg = va_arg(ap, void*);
        va_end(ap);
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_fcntl, fd, cmd, arg);
        switch (cmd)
        {
        case F_SETLK:
        case F_SETLKW:
        {
            int e = enter(C_LOCK);
            if (e)
                return fail(e);
            return 0;
        }
        case F_GETLK:
            ((struct flock*)arg)->l_type = F_UNLCK;
            return 0;
        case F_GETFD:
            return FD_CLOEXEC;
        case F_SETFL:
        {
            auto f = getf(fd);
            if (!f)
                return fail(EBADF);
            f->flags = (f->flags & O_ACCMODE) | ((int)(intptr_t)arg & ~O_ACCMODE);
            return 0;
        }
        case F_GETFL:
        {
            auto f = getf(fd);
            return f ? f->flags : fail(EBADF);
        }
        default:
            return 0;
        }
    }
    int fcntl(int fd, int cmd, ...)
    {
        va_list ap;
        va_start(ap, cmd);
        void* arg = va_arg(ap, void*);
        va_end(ap);
        return fcntl64(fd, cmd, arg);
    }
    static void fill_vfs(struct statvfs* s)
    {
        memset(s, 0, sizeof *s);
        s->f_bsize = s->f_frsize = 4096;
        s->f_blocks = 1 << 20;
        s->f_bfree = s->f_bavail = 1 << 19;
        s->f_files = 1 << 20;
        s->f_ffree = 1 << 19;
        s->f_namemax = 255;
    }
    int fstatvfs(int fd, struct statvfs* s) noexcept
    {
        if (!is_sim_fd(fd))
            return rs<int (*)(int, struct statvfs*)>("fstatvfs")(fd, s);
        int e = enter(C_STATFS);
        if (e)
            return fail(e);
        fill_vfs(s);
        return 0;
    }
    int fstatvfs64(int fd, struct statvfs64* s) noexcept
    {
        return fstatvfs(fd, (struct statvfs*)s);
    }
    int statvfs(const char* p, struct statvfs* s) noexcept
    {
        if (!is_sim_path(p))
            return rs<int (*)(const char*, struct statvfs*)>("statvfs")(p, s);
        fill_vfs(s);
        return 0;
    }
    int statvfs64(const char* p, struct statvfs64* s) noexcept
    {
        return statvfs(p, (struct statvfs*)s);
    }
    int statfs(const char* p, struct statfs* s) noexcept
    {
        if (!is_sim_path(p))
            return rs<int (*)(const char*, struct statfs*)>("statfs")(p, s);
        int e = enter(C_STATFS);
        if (e)
            return fail(e);
        memset(s, 0, sizeof *s);
        s->f_type = sim::cfg.fs_type;
        s->f_bsize = s->f_frsize = 4096;
        s->f_blocks = 1 << 20;
        s->f_bfree = s->f_bavail = 1 << 19;
        s->f_namelen = 255;
        return 0;
    }
    int statfs64(const char* p, struct statfs64* s) noexcept { return statfs(p, (struct statfs*)s); }
    char* realpath(const char* p, char* out) noexcept
    {
        if (!is_sim_path(p))
            return rs<char* (*)(const char*, char*)>("realpath")(p, out);
        int e = enter(C_STAT);
        if (e)
        {
            errno = e;
            return nullptr;
        }
        Walk w = walk(AT_FDCWD, p, true);
        if (w.err || !w.ino)
        {
            errno = w.err ? w.err : ENOENT;
            return nullptr;
        }
        std::string s(p);
        while (s.size() > 1 && s.back() == '/')
            s.pop_back();
        if (!out)
            return strdup(s.c_str());
        strcpy(out, s.c_str());
        return out;
    }
    char* canonicalize_file_name(const char* p) noexcept { return realpath(p, nullptr); }
    ssize_t getxattr(const char* p, const char* n, void* v, size_t s) noexcept
    {
        if (!is_sim_path(p))
            return syscall(SYS_getxattr, p, n, v, s);
        return sim_getxattr(-1, p, true, n, v, s);
    }
    ssize_t lgetxattr(const char* p, const char* n, void* v, size_t s) noexcept
    {
        if (!is_sim_path(p))
            return syscall(SYS_lgetxattr, p, n, v, s);
        return sim_getxattr(-1, p, false, n, v, s);
    }
    ssize_t fgetxattr(int fd, const char* n, void* v, size_t s) noexcept
    {
        if (!is_sim_fd(fd))
            return syscall(SYS_fgetxattr, fd, n, v, s);
        return sim_getxattr(fd, nullptr, true, n, v, s);
    }
    ssize_t listxattr(const char* p, char* v, size_t s) noexcept
    {
        if (!is_sim_path(p))
            return syscall(SYS_listxattr, p, v, s);
        return sim_listxattr(-1, p, true, v, s);
    }
    ssize_t llistxattr(const char* p, char* v, size_t s) noexcept
    {
        if (!is_sim_path(p))
            return syscall(SYS_llistxattr, p, v, s);
        return sim_listxattr(-1, p, false, v, s);
    }
    ssize_t flistxattr(int fd, char* v, size_t s) noexcept
    {
        if (!is_sim_fd(fd))
            return syscall(SYS_flistxattr, fd, v, s);
        return sim_listxattr(fd, nullptr, true, v, s);
    }
    int setxattr(const char* p, const char* n, const void* v, size_t s, int f) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_setxattr, p, n, v, s, f);
        return sim_setxattr(-1, p, true, n, v, s, f);
    }
    int lsetxattr(const char* p, const char* n, const void* v, size_t s, int f) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_lsetxattr, p, n, v, s, f);
        return sim_setxattr(-1, p, false, n, v, s, f);
    }
    int fsetxattr(int fd, const char* n, const void* v, size_t s, int f) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_fsetxattr, fd, n, v, s, f);
        return sim_setxattr(fd, nullptr, true, n, v, s, f);
    }
    int removexattr(const char* p, const char* n) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_removexattr, p, n);
        return sim_removexattr(-1, p, true, n);
    }
    int lremovexattr(const char* p, const char* n) noexcept
    {
        if (!is_sim_path(p))
            return (int)syscall(SYS_lremovexattr, p, n);
        return sim_removexattr(-1, p, false, n);
    }
    int fremovexattr(int fd, const char* n) noexcept
    {
        if (!is_sim_fd(fd))
            return (int)syscall(SYS_fremovexattr, fd, n);
        return sim_removexattr(fd, nullptr, true, n);
    }

    // ---- directories
    DIR* opendir(const char* p)
    {
        if (!is_sim_path(p))
        {
            static auto real = rs<DIR* (*)(const char*)>("opendir");
            return real(p);
        }
        int e = enter(C_OPENDIR);
        if (e)
        {
            errno = e;
            return nullptr;
        }
        Walk w = walk(AT_FDCWD, p, true);
        if (w.err || !w.ino)
        {
            errno = w.err ? w.err : ENOENT;
            trace("opendir(%s) errno %d", p, errno);
            return nullptr;
        }
        if (!S_ISDIR(disk->get(w.ino)->mode))
        {
            errno = ENOTDIR;
            return nullptr;
        }
        auto f = std::make_shared<OpenFile>();
        f->d = disk;
        f->ino = w.ino;
        auto* d = new SimDir;
        d->fd = alloc_fd(f);
        d->d = disk;
        d->ino = w.ino;
        sim_dirs.insert(d);
        trace("opendir(%s)", p);
        return (DIR*)d;
    }
    int closedir(DIR* dp)
    {
        if (!sim_dirs.count(dp))
        {
            if (!dp)
                violation("use-after-free", "closedir on a null directory stream");
            static auto real = rs<int (*)(DIR*)>("closedir");
            return real(dp);
        }
        auto* d = (SimDir*)dp;
        sim_dirs.erase(dp);
        sim_close(d->fd);
        delete d;
        return 0;
    }
    struct dirent64* readdir64(DIR* dp)
    {
        if (!sim_dirs.count(dp))
        {
            static auto real = rs<struct dirent64* (*)(DIR*)>("readdir64");
            return real(dp);
        }
        auto* d = (SimDir*)dp;
        int e = enter(C_READDIR);
        if (e)
        {
            errno = e;
            return nullptr;
        }
        if (!d->loaded)
        {
            d->list.clear();
            Inode* n = d->d->get(d->ino);
            if (n)
            {
                for (auto& x : n->ents)
                    d->list.push_back({x.first, x.second});
                std::sort(d->list.begin(),
                          d->list.end(),
                          [](auto& a, auto& b)
                          {
                              return mix64(hash_str(a.first), cfg.seed)
                                  < mix64(hash_str(b.first), cfg.seed);
                          });
                d->list.insert(d->list.begin(), {"..", n->parent});
                d->list.insert(d->list.begin(), {".", n->ino});
            }
            d->loaded = true;
            d->pos = 0;
        }
        if (d->pos >= d->list.size())
            return nullptr;
        auto& x = d->list[d->pos++];
        memset(&d->ent, 0, sizeof d->ent);
        d->ent.d_ino = x.second;
        d->ent.d_off = d->pos;
        Inode* n = d->d->get(x.second);
        uint32_t m = n ? n->mode : 0;
        d->ent.d_type = S_ISDIR(m) ? DT_DIR
            : S_ISLNK(m)           ? DT_LNK
            : S_ISREG(m)           ? DT_REG
                                   : DT_UNKNOWN;
        snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", x.first.c_str());
        trace("readdir(#%llu) = %s", (unsigned long long)d->ino, x.first.c_str());
        return &d->ent;
    }
    struct dirent* readdir(DIR* dp) { return (struct dirent*)readdir64(dp); }
    void rewinddir(DIR* dp) noexcept
    {
        if (!sim_dirs.count(dp))
        {
            rs<void (*)(DIR*)>("rewinddir")(dp);
            return;
        }
        ((SimDir*)dp)->loaded = false;
        ((SimDir*)dp)->pos = 0;
    }
    int dirfd(DIR* dp) noexcept
    {
        if (!sim_dirs.count(dp))
            return rs<int (*)(DIR*)>("dirfd")(dp);
        return ((SimDir*)dp)->fd;
    }

    // ---- stdio on simulated files
    static ssize_t ck_read(void* c, char* b, size_t n) { return read((int)(intptr_t)c, b, n); }
    static ssize_t ck_write(void* c, const char* b, size_t n)
    {
        return write((int)(intptr_t)c, b, n);
    }
    static int ck_seek(void* c, off64_t* o, int wh)
    {
        off_t r = lseek((int)(intptr_t)c, *o, wh);
        if (r < 0)
            return -1;
        *o = r;
        return 0;
    }
    static int ck_close(void* c) { return close((int)(intptr_t)c); }
    static FILE* cookie(int fd, const char* mode)
    {
        cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
        return fopencookie((void*)(intptr_t)fd, mode, io);
    }
    FILE* fopen64(const char* p, const char* mode)
    {
        if (FILE* f = sim::g_on_fopen ? sim::g_on_fopen(p) : nullptr)
            return f;
        if (!is_sim_path(p))
        {
            static auto real = rs<FILE* (*)(const char*, const char*)>("fopen64");
            return real(p, mode);
        }
        int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY)
            : mode[0] == 'w'    ? (O_CREAT | O_TRUNC | (strchr(mode, '+') ? O_RDWR : O_WRONLY))
                                : (O_CREAT | O_APPEND | (strchr(mode, '+') ? O_RDWR : O_WRONLY));
        int fd = openat(AT_FDCWD, p, fl, 0666);
        return fd < 0 ? nullptr : cookie(fd, mode);
    }
    FILE* fopen(const char* p, const char* mode)
    {
        if (is_sim_path(p) || !strncmp(p, "/simlog/", 8))
            return fopen64(p, mode);
        static auto real = rs<FILE* (*)(const char*, const char*)>("fopen");
        return real(p, mode);
    }
    FILE* fdopen(int fd, const char* mode) noexcept
    {
        if (is_sim_fd(fd))
            return cookie(fd, mode);
        if (R && self_id() >= 0 && fd >= 0 && fd < 3)
            fd = (int)syscall(SYS_dup, fd);    // every simulated process has its own
        return rs<FILE* (*)(int, const char*)>("fdopen")(fd, mode);
    }

    // ---- time
    int clock_gettime(clockid_t id, timespec* ts) noexcept
    {
        if (!R || self_id() < 0)
            return (int)syscall(SYS_clock_gettime, id, ts);
        yield(13);
        advance_ns(1000);
        int64_t n = now_ns();
        if (id != CLOCK_REALTIME)
            n += g_mono_offset - 1600000000ll * 1000000000ll;
        ts->tv_sec = n / 1000000000;
        ts->tv_nsec = n % 1000000000;
        return 0;
    }
    int gettimeofday(struct timeval* tv, void*) noexcept
    {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    time_t time(time_t* t) noexcept
    {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (t)
            *t = ts.tv_sec;
        return ts.tv_sec;
    }
    clock_t clock(void) noexcept { return (clock_t)(now_ns() / 1000 % 1000000000); }
    clock_t times(struct tms* b) noexcept
    {
        if (b)
            memset(b, 0, sizeof *b);
        return (clock_t)(now_ns() / 10000000 % 1000000000);
    }
    int nanosleep(const timespec* r, timespec*)
    {
        if (!R || self_id() < 0)
            return (int)syscall(SYS_nanosleep, r, nullptr);
        sleep_until(now_ns() + r->tv_sec * 1000000000ll + r->tv_nsec);
        return 0;
    }
    int clock_nanosleep(clockid_t id, int flags, const timespec* r, timespec*)
    {
        if (!R || self_id() < 0)
            return (int)-syscall(SYS_clock_nanosleep, id, flags, r, nullptr);
        int64_t t = r->tv_sec * 1000000000ll + r->tv_nsec;
        if (!(flags & TIMER_ABSTIME))
            t += now_ns();
        else if (id != CLOCK_REALTIME)
            t -= g_mono_offset - 1600000000ll * 1000000000ll;
        sleep_until(t);
        return 0;
    }
    unsigned sleep(unsigned s)
    {
        timespec t{(time_t)s, 0};
        nanosleep(&t, nullptr);
        return 0;
    }
    int usleep(useconds_t u)
    {
        timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
        return nanosleep(&t, nullptr);
    }
    int sched_yield(void) noexcept
    {
        if (R && self_id() >= 0)
            yield(14);
        else
            syscall(SYS_sched_yield);
        return 0;
    }

    // ---- randomness, identity
    ssize_t getrandom(void* b, size_t n, unsigned fl)
    {
        if (!R)
            return syscall(SYS_getrandom, b, n, fl);
        if (!ent_init)
        {
            ent_rng = Rng(cfg.seed);
            ent_init = true;
        }
        for (size_t i = 0; i < n; ++i)
            ((uint8_t*)b)[i] = (uint8_t)ent_rng.next();
        g_random_bytes_drawn += n;
        return n;
    }
    int getentropy(void* b, size_t n)
    {
        return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
    }
    int pipe2(int* p, int flags) noexcept
    {
        if (!R || self_id() < 0)
            return (int)syscall(SYS_pipe2, p, flags);
        auto b = std::make_shared<Pipe>();
        for (int i = 0; i < 2; ++i)
        {
            auto f = std::make_shared<OpenFile>();
            f->pipe = b;
            f->pipe_end = i;
            f->flags = (i ? O_WRONLY : O_RDONLY) | (flags & O_NONBLOCK);
            f->pid = tl_pid;
            f->cloexec = (flags & O_CLOEXEC) != 0;
            p[i] = alloc_fd(f);
        }
        return 0;
    }
    int pipe(int* p) noexcept { return pipe2(p, 0); }

    // ---- one child process, played by the harness (g_on_spawn)
    int posix_spawn_file_actions_init(posix_spawn_file_actions_t* fa) noexcept
    {
        g_actions[fa].clear();
        return 0;
    }
    int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t* fa) noexcept
    {
        g_actions.erase(fa);
        return 0;
    }
    int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* fa, int fd) noexcept
    {
        g_actions[fa].push_back({fd, -1});
        return 0;
    }
    int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* fa, int fd, int to) noexcept
    {
        g_actions[fa].push_back({fd, to});
        return 0;
    }
    int posix_spawnp(pid_t* pid,
                     const char* file,
                     const posix_spawn_file_actions_t* fa,
                     const posix_spawnattr_t*,
                     char* const argv[],
                     char* const[]) noexcept
    {
        yield(17);
        int e = enter(C_OPEN);
        if (e)
            return e;
        if (!g_on_spawn)
            return ENOSYS;
        std::map<int, std::shared_ptr<OpenFile>> tab;
        for (auto& [n, f] : fds)
            if (f->pipe && f->pid == tl_pid)
                tab[n] = f;
        if (fa)
            for (auto& [a, b] : g_actions[fa])
            {
                if (!tab.count(a))
                    return EBADF;
                if (b >= 0)
                    tab[b] = tab[a];
                else
                    tab.erase(a);
            }
        for (auto it = tab.begin(); it != tab.end();)
            if (it->first >= 3 && it->second->cloexec)
                it = tab.erase(it);
            else
                ++it;
        std::vector<std::string> args;
        for (int i = 0; argv[i]; ++i)
            args.push_back(argv[i]);
        g_child = Child{};
        g_child.tab = tab;
        g_child.pid = 0;
        g_child.id = g_on_spawn(file, args);
        trace("spawn %s = %d", file, g_child.id);
        *pid = g_child.id;
        return 0;
    }
    int posix_spawn(pid_t* pid,
                    const char* file,
                    const posix_spawn_file_actions_t* fa,
                    const posix_spawnattr_t* at,
                    char* const argv[],
                    char* const envp[]) noexcept
    {
        return posix_spawnp(pid, file, fa, at, argv, envp);
    }
    pid_t waitpid(pid_t pid, int* st, int opt)
    {
        if (!R || self_id() < 0)
            return (pid_t)syscall(SYS_wait4, pid, st, opt, nullptr);
        yield(18);
        if (!g_child.id || g_child.reaped || (pid > 0 && pid != g_child.id))
            return fail(ECHILD);
        while (!g_child.done)
        {
            if (opt & WNOHANG)
                return 0;
            block_on(&g_child);
        }
        g_child.reaped = true;
        if (st)
            *st = g_child.sig ? g_child.sig : (g_child.rc & 0xff) << 8;
        return g_child.id;
    }
    int sigaction(int sig, const struct sigaction* a, struct sigaction* o) noexcept
    {
        static auto real = rs<int (*)(int, const struct sigaction*, struct sigaction*)>("sigaction");
        if (!R || self_id() < 0 || sig < 0 || sig >= 65 || !(sig == SIGINT || sig == SIGTERM || sig == SIGHUP || sig == SIGQUIT))
            return real(sig, a, o);
        if (o)
            *o = g_sig[sig];
        if (a)
            g_sig[sig] = *a;
        return 0;
    }
    int get_nprocs(void) noexcept { return R ? cfg.nproc : 2; }
    pid_t getpid(void) noexcept
    {
        if (!R || self_id() < 0)
            return (pid_t)syscall(SYS_getpid);
        return tl_pid ? tl_pid : g_pid;
    }
    int kill(pid_t pid, int sig) noexcept
    {
        if (!R || self_id() < 0)
            return (int)syscall(SYS_kill, pid, sig);
        if (g_on_kill && sig)
            return g_on_kill(pid, sig);
        if (sig && pid == g_pid && sig < 65 && deliver_signal(sig))
            return 0;
        if (pid == g_pid || (tl_pid && pid == tl_pid) || g_other_pids.count(pid))
            return 0;
        if (g_foreign_pids.count(pid))
        {
            errno = EPERM;
            return -1;
        }
        errno = ESRCH;
        return -1;
    }
    uid_t getuid(void) noexcept { return R ? 0 : (uid_t)syscall(SYS_getuid); }
    gid_t getgid(void) noexcept { return R ? 0 : (gid_t)syscall(SYS_getgid); }
    int setrlimit64(__rlimit_resource_t, const struct rlimit64*) noexcept { return 0; }
    int setrlimit(__rlimit_resource_t, const struct rlimit*) noexcept { return 0; }
    int isatty(int fd) noexcept { return g_on_isatty ? g_on_isatty(fd) : 0; }
    void* mmap64(void* a, size_t n, int p, int f, int fd, off64_t o) noexcept
    {
        if (is_sim_fd(fd))
        {
            errno = ENODEV;
            return MAP_FAILED;
        }
        return (void*)syscall(SYS_mmap, a, n, p, f, fd, o);
    }
    void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) noexcept
    {
        return mmap64(a, n, p, f, fd, o);
    }
    int ioctl(int fd, unsigned long req, ...) noexcept
    {
        va_list ap;
        va_start(ap, req);
        void* arg = va_arg(ap, void*);
        va_end(ap);
        if (is_sim_fd(fd))
        {
            auto f = getf(fd);
            if (f && f->d && g_on_ioctl)
            {
                auto w = walk(AT_FDCWD, "/simroot/mnt", true);
                if (!w.err && w.ino == f->ino)
                {
                    int rc = g_on_ioctl("/", req, arg);
                    return rc < 0 ? fail(-rc) : rc;
                }
            }
            errno = ENOTTY;
            return -1;
        }
        return (int)syscall(SYS_ioctl, fd, req, arg);
    }
}
