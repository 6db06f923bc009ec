// Concurrent requests: what the Linux kernel and libfuse may have in flight at the same time, run under
// the seeded scheduler; the recorded history must be linearizable against the reference model.
#include "free.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/xattr.h>
#include <unordered_set>

namespace h
{
namespace
{
// ------------------------------------------------------------------ the kernel's view of the names
struct KN
{
    int id = 0;
    Kind kind = KF;
    bool dead = false;
    KN* parent = nullptr;
    std::map<std::string, KN*> ch;
};
// One lock: class, object, range, exclusive.
//   I  inode lock (i_rwsem) of a file or directory      T  libfuse's path lock of a node
//   P  pages of a file (page locks, truncation lock)     R  the lock for renames between directories
struct LReq
{
    char cls;
    int id;
    bool ex;
    uint64_t a = 0, b = ~0ull;
};
using LS = std::vector<LReq>;

// ------------------------------------------------------------------ history
struct Rec
{
    Op op;
    int thr = 0;
    uint64_t inv = 0, res = 0;
    int rc = 0;
    std::string data;
    struct stat st = {};
    std::set<std::string> names;
    bool dup = false;      // a listing showed a name twice
    bool fuzzy = false;    // the size may be in between
};
struct CH
{
    Handle h;
    KN* kn = nullptr;
    int inuse = 0;
    bool closing = false, gone = false;
};

struct Conc
{
    Engine& e;
    Kernel& k;
    Mount& m;
    std::vector<std::unique_ptr<KN>> pool;
    KN* root = nullptr;
    std::map<int, CH> chs;
    std::vector<std::pair<int, LReq>> held;
    std::vector<Rec> hist;
    uint64_t tick = 0;
    int max_par = 0, cur_par = 0;

    explicit Conc(Engine& en) : e(en), k(*en.k), m(*en.mnt) {}

    KN* mk(Kind kd, KN* parent)
    {
        pool.push_back(std::make_unique<KN>());
        KN* n = pool.back().get();
        n->id = (int)pool.size();
        n->kind = kd;
        n->parent = parent;
        return n;
    }
    void build()
    {
        std::map<std::string, KN*> by;
        std::map<Node*, KN*> first;
        e.model.walk(
            [&](const std::string& p, const NodeP& n)
            {
                KN* par = p == "/" ? nullptr : by[parent_of(p)];
                KN* x = mk(n->kind, par);
                by[p] = x;
                if (par)
                    par->ch[base_of(p)] = x;
                else
                    root = x;
                first.emplace(n.get(), x);
            });
        for (auto& [s, hd] : e.hs)
        {
            CH c;
            c.h = hd;
            auto it = by.find(hd.path);
            if (it != by.end() && e.model.find(hd.path) == hd.node)
                c.kn = it->second;
            else if (first.count(hd.node.get()))
                c.kn = first[hd.node.get()];
            else
            {
                c.kn = mk(hd.dir ? KD : KF, nullptr);
                c.kn->dead = true;
            }
            chs[s] = c;
        }
    }
    static std::vector<std::string> comps(const std::string& p)
    {
        std::vector<std::string> r;
        size_t i = 1;
        while (i < p.size())
        {
            size_t j = p.find('/', i);
            if (j == p.npos)
                j = p.size();
            r.push_back(p.substr(i, j - i));
            i = j + 1;
        }
        return r;
    }
    // Resolves the directory a name lives in; null when a component is missing or no directory.
    // `missing` then is the path whose lookup fails ("" when no request would be sent).
    KN* dir_of(const std::string& p, LS& ls, std::string& missing)
    {
        KN* cur = root;
        auto c = comps(p);
        std::string sofar;
        missing.clear();
        for (size_t i = 0; i + 1 < c.size(); ++i)
        {
            sofar += "/" + c[i];
            auto it = cur->ch.find(c[i]);
            if (it == cur->ch.end())
            {
                missing = sofar;
                return nullptr;
            }
            cur = it->second;
            if (cur->kind != KD)
                return nullptr;
            ls.push_back({'T', cur->id, false});
        }
        return cur;
    }
    static KN* child(KN* d, const std::string& p)
    {
        if (!d)
            return nullptr;
        auto it = d->ch.find(base_of(p));
        return it == d->ch.end() ? nullptr : it->second;
    }
    bool fits(const LS& ls, int me)
    {
        for (auto& l : ls)
            for (auto& [o, x] : held)
                if (o != me && x.cls == l.cls && x.id == l.id && (x.ex || l.ex) && l.a < x.b
                    && x.a < l.b)
                    return false;
        return true;
    }
    // Takes all the locks a request needs at once. `resolve` is evaluated again after each wait.
    bool acquire(const std::function<bool(LS&)>& resolve)
    {
        int me = sim::self_id();
        for (;;)
        {
            LS ls;
            if (!resolve(ls))
                return false;
            if (fits(ls, me))
            {
                for (auto& l : ls)
                    held.push_back({me, l});
                max_par = std::max(max_par, ++cur_par);
                sim::hb_acquire(this);    // libfuse has a lock of its own that every request takes
                return true;
            }
            sim::block_on(this);
        }
    }
    void release()
    {
        int me = sim::self_id();
        held.erase(std::remove_if(
                       held.begin(), held.end(), [&](auto& x) { return x.first == me; }),
                   held.end());
        --cur_par;
        sim::hb_release(this);
        sim::wake_all(this);
    }
    void call(Rec& r, const std::function<int()>& f)
    {
        k.ctx();
        r.inv = ++tick;
        r.rc = f();
        r.res = ++tick;
        if (r.rc < 0)
            ++sim::R->ops_failed;
        ++sim::R->ops;
        sim::trace("op %d %s rc=%d", r.op.id, r.op.k.c_str(), r.rc);
    }
    void lookup(Op op, const std::string& p)
    {
        // a lookup that is expected to fail, or to find something unexpected
        op.k = "stat";
        op.p = p;
        op.a = 1;
        run(op);
    }
    // Listings of a directory that was renamed under an open handle lack its long names: a known
    // finding (known/s07-stale-dir-handle.plan), left to the sequential checks.
    bool path_bound() { return !e.v.full && e.v.long_threshold > 0; }
    static std::string path_of(KN* x)
    {
        if (!x->parent)
            return "/";
        for (auto& [n, c] : x->parent->ch)
            if (c == x)
            {
                std::string d = path_of(x->parent);
                return (d == "/" ? "" : d) + "/" + n;
            }
        return "";
    }
    // One operation of a thread.
    void run(const Op& op)
    {
        const std::string& K = op.k;
        Rec r;
        r.op = op;
        r.thr = op.thr;
        std::string missing;
        KN *d = nullptr, *x = nullptr, *d2 = nullptr, *y = nullptr;
        bool send = false;
        auto record = [&] { hist.push_back(r); };
        // the leaf of a path, as most requests by path see it
        auto leaf = [&](LS& ls) -> bool
        {
            send = false;
            ls.clear();
            if (op.p == "/")
            {
                x = root;
                d = nullptr;
                return true;
            }
            d = dir_of(op.p, ls, missing);
            x = child(d, op.p);
            if (d && !x)
                missing = op.p;
            return x != nullptr;
        };
        if (K == "stat")
        {
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (leaf(ls))
                    {
                        if (op.a == 1 && d)
                            ls.push_back({'I', d->id, false});
                        else
                            ls.push_back({'T', x->id, false});
                        return true;
                    }
                    // only a missing component of an existing directory is looked up
                    std::string ms = missing;
                    if (ms.empty())
                        return false;
                    r.op.p = ms;
                    ls.clear();
                    d = dir_of(ms, ls, missing);
                    ls.push_back({'I', d->id, false});
                    return true;
                });
            if (!ok)
                return;
            call(r, [&] { return m.fo.getattr(r.op.p.c_str(), &r.st); });
            record();
            release();
            return;
        }
        auto not_there = [&]
        {
            if (!missing.empty())
                lookup(op, missing);
        };
        if (K == "open")
        {
            if (chs.count(op.h))
                return;
            bool creating = false, exists = false;
            bool ok = acquire(
                [&](LS& ls)
                {
                    creating = exists = false;
                    if (leaf(ls))
                    {
                        if (x->kind != KF || ((op.flags & O_CREAT) && (op.flags & O_EXCL)))
                        {
                            exists = true;
                            return false;
                        }
                        ls.push_back({'T', x->id, false});
                        if (op.flags & O_TRUNC)
                        {
                            ls.push_back({'I', x->id, true});
                            ls.push_back({'P', x->id, true});
                        }
                        return true;
                    }
                    if (!d || !(op.flags & O_CREAT))
                        return false;
                    creating = true;
                    ls.push_back({'I', d->id, true});
                    return true;
                });
            if (!ok)
                return exists ? void() : not_there();
            CH c;
            c.h.path = op.p;
            c.h.acc = op.flags & O_ACCMODE;
            c.h.fi.flags = creating ? op.flags : op.flags & ~(O_CREAT | O_EXCL);
            r.op.flags = c.h.fi.flags;
            if (creating)
                call(r, [&] { return m.fo.create(op.p.c_str(), S_IFREG | op.mode, &c.h.fi); });
            else
                call(r, [&] { return m.fo.open(op.p.c_str(), &c.h.fi); });
            if (r.rc == 0)
            {
                if (creating)
                    x = d->ch[base_of(op.p)] = mk(KF, d);
                c.kn = x;
                chs[op.h] = c;
            }
            record();
            release();
            return;
        }
        if (K == "opendir")
        {
            if (chs.count(op.h))
                return;
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (!leaf(ls) || x->kind != KD)
                        return false;
                    if (d)
                        ls.push_back({'T', x->id, false});
                    return true;
                });
            if (!ok)
                return not_there();
            CH c;
            c.h.path = op.p;
            c.h.dir = true;
            call(r, [&] { return m.fo.opendir(op.p.c_str(), &c.h.fi); });
            if (r.rc == 0)
            {
                c.kn = x;
                chs[op.h] = c;
            }
            record();
            release();
            return;
        }
        if (K == "read" || K == "write" || K == "ftrunc" || K == "fstat" || K == "flush"
            || K == "fsync" || K == "readdirh" || K == "close" || K == "closedir")
        {
            auto it = chs.find(op.h);
            bool dir = K == "readdirh" || K == "closedir";
            if (it == chs.end() || it->second.closing || it->second.h.dir != dir)
                return;
            CH& c = it->second;
            if (K == "read" && c.h.acc == O_WRONLY)
                return;
            if ((K == "write" || K == "ftrunc") && (c.h.acc == O_RDONLY || (K == "write" && op.len <= 0)))
                return;
            if (K == "readdirh" && c.kn->dead)
                return;
            ++c.inuse;
            int id = c.kn->id;
            auto page = [](uint64_t v) { return v / 4096; };
            if (K == "close" || K == "closedir")
                c.closing = true;
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (K == "read")
                        ls.push_back({'P', id, false, page(op.off), page(op.off + op.len) + 1});
                    else if (K == "write")
                    {
                        ls.push_back({'I', id, true});
                        ls.push_back({'P', id, true, page(op.off), page(op.off + op.len) + 1});
                    }
                    else if (K == "ftrunc")
                    {
                        ls.push_back({'I', id, true});
                        ls.push_back({'P', id, true});
                    }
                    else if (K == "fsync")
                        ls.push_back({'I', id, true});
                    else if (K == "readdirh")
                    {
                        if (c.kn->dead || (path_bound() && path_of(c.kn) != c.h.path))
                            return false;
                        ls.push_back({'I', id, false});
                    }
                    return true;
                });
            const char* hp = m.fo.flag_nopath && m.fo.flag_nullpath_ok ? nullptr : c.h.path.c_str();
            if (ok)
            {
                if (K == "read")
                {
                    r.data.assign(op.len, '\xEE');
                    call(r,
                         [&]
                         { return m.fo.read(hp, r.data.data(), op.len, (off_t)op.off, &c.h.fi); });
                    if (r.rc > (int)op.len)
                        sim::violation("read-overrun", op.str());
                    r.data.resize(std::max(0, r.rc));
                }
                else if (K == "write")
                {
                    std::string w = gen_data(op.ds, op.len);
                    call(r,
                         [&] { return m.fo.write(hp, w.data(), w.size(), (off_t)op.off, &c.h.fi); });
                }
                else if (K == "ftrunc")
                    call(r, [&] { return m.fo.ftruncate(hp, (off_t)op.len, &c.h.fi); });
                else if (K == "fstat")
                    call(r,
                         [&]
                         {
                             return m.fo.fgetattr ? m.fo.fgetattr(hp, &r.st, &c.h.fi)
                                                  : m.fo.getattr(c.h.path.c_str(), &r.st);
                         });
                else if (K == "flush" || K == "close")
                    call(r, [&] { return m.fo.flush(hp, &c.h.fi); });
                else if (K == "fsync")
                    call(r, [&] { return m.fo.fsync(hp, (int)op.a, &c.h.fi); });
                else if (K == "readdirh")
                {
                    std::vector<std::string> l;
                    auto fill = [](void* b, const char* n, const struct stat*, off_t)
                    {
                        static_cast<std::vector<std::string>*>(b)->push_back(n);
                        return 0;
                    };
                    call(r, [&] { return m.fo.readdir(hp, &l, fill, 0, &c.h.fi); });
                    for (auto& n : l)
                        if (n != "." && n != "..")
                            r.dup |= !r.names.insert(n).second;
                }
                if (K != "closedir")
                    record();
                release();
            }
            --c.inuse;
            if (c.closing && !c.inuse && !c.gone)
            {
                // the last user of a closed handle sends the release, which nothing waits for
                c.gone = true;
                k.ctx();
                ++cur_par;
                sim::hb_acquire(this);
                if (c.h.dir)
                    m.fo.releasedir(hp, &c.h.fi);
                else
                    m.fo.release(hp, &c.h.fi);
                sim::hb_release(this);
                --cur_par;
            }
            return;
        }
        if (K == "mkdir" || K == "symlink")
        {
            bool exists = false;
            bool ok = acquire(
                [&](LS& ls)
                {
                    exists = leaf(ls);
                    if (exists || !d)
                        return false;
                    ls.push_back({'I', d->id, true});
                    return true;
                });
            if (!ok)
                return exists ? lookup(op, op.p) : not_there();
            if (K == "mkdir")
                call(r, [&] { return m.fo.mkdir(op.p.c_str(), op.mode); });
            else
                call(r, [&] { return m.fo.symlink(op.s.c_str(), op.p.c_str()); });
            if (r.rc == 0)
                d->ch[base_of(op.p)] = mk(K == "mkdir" ? KD : KL, d);
            record();
            release();
            return;
        }
        if (K == "unlink" || K == "rmdir")
        {
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (!leaf(ls) || !d || (x->kind == KD) != (K == "rmdir"))
                        return false;
                    ls.push_back({'I', d->id, true});
                    ls.push_back({'I', x->id, true});
                    ls.push_back({'T', x->id, true});
                    return true;
                });
            if (!ok)
                return not_there();
            call(r,
                 [&]
                 { return K == "rmdir" ? m.fo.rmdir(op.p.c_str()) : m.fo.unlink(op.p.c_str()); });
            if (r.rc == 0)
            {
                x->dead = true;
                d->ch.erase(base_of(op.p));
            }
            record();
            release();
            return;
        }
        if (K == "rename")
        {
            if (op.p == op.q)
                return;
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (!leaf(ls) || !d)
                        return false;
                    std::string ms;
                    d2 = dir_of(op.q, ls, ms);
                    if (!d2)
                        return false;
                    y = child(d2, op.q);
                    // refused by the kernel
                    for (KN* a = d2; a; a = a->parent)
                        if (a == x)
                            return false;
                    for (KN* a = d; a; a = a->parent)
                        if (a == y)
                            return false;
                    if (y && (x->kind == KD) != (y->kind == KD))
                        return false;
                    if (path_bound())
                        for (auto& [i, c] : chs)
                            for (KN* a = c.h.dir && c.inuse ? c.kn : nullptr; a; a = a->parent)
                                if (a == x)
                                    return false;
                    ls.push_back({'I', d->id, true});
                    ls.push_back({'I', d2->id, true});
                    if (d != d2)
                        ls.push_back({'R', 0, true});
                    ls.push_back({'I', x->id, true});
                    ls.push_back({'T', x->id, true});
                    if (y)
                    {
                        ls.push_back({'I', y->id, true});
                        ls.push_back({'T', y->id, true});
                    }
                    return true;
                });
            if (!ok)
                return;
            call(r, [&] { return m.fo.rename(op.p.c_str(), op.q.c_str()); });
            // Nothing happens when both are links to one file; their paths stay what they are. The
            // model decides which of them it was.
            if (r.rc == 0 && !(y && same_object(x, y)))
            {
                d->ch.erase(base_of(op.p));
                if (y)
                    y->dead = true;
                d2->ch[base_of(op.q)] = x;
                x->parent = d2;
            }
            record();
            release();
            return;
        }
        if (K == "link")
        {
            bool ok = acquire(
                [&](LS& ls)
                {
                    if (!leaf(ls) || x->kind == KD)
                        return false;
                    ls.push_back({'T', x->id, false});
                    ls.push_back({'I', x->id, true});
                    std::string ms;
                    d2 = dir_of(op.q, ls, ms);
                    if (!d2 || child(d2, op.q))
                        return false;
                    ls.push_back({'I', d2->id, true});
                    return true;
                });
            if (!ok)
                return;
            call(r, [&] { return m.fo.link(op.p.c_str(), op.q.c_str()); });
            if (r.rc == 0)
            {
                y = d2->ch[base_of(op.q)] = mk(x->kind, d2);
                same[y->id] = rep(x->id);
            }
            record();
            release();
            return;
        }
        if (K == "statfs")
        {
            acquire([&](LS&) { return true; });
            struct statvfs s;
            memset(&s, 0, sizeof s);
            call(r, [&] { return m.fo.statfs("/", &s); });
            record();
            release();
            return;
        }
        if (K == "tick")
        {
            sim::yield(9);
            sim::advance_ns(op.a);
            return;
        }
        // the remaining requests name one existing object
        bool setattr = K == "trunc" || K == "chmod" || K == "chown" || K == "utimens" || K == "setx"
            || K == "remx";
        bool ok = acquire(
            [&](LS& ls)
            {
                if (!leaf(ls) || !d)
                    return false;
                bool fits = K == "readlink" ? x->kind == KL
                    : K == "chmod" || K == "setx" || K == "getx" || K == "remx" || K == "listx" ? x->kind != KL
                    : K == "chown" || K == "utimens"                                            || x->kind == KF;
                if (!fits)
                    return false;
                ls.push_back({'T', x->id, false});
                if (setattr)
                    ls.push_back({'I', x->id, true});
                if (K == "trunc")
                    ls.push_back({'P', x->id, true});
                return true;
            });
        if (!ok)
            return not_there();
        const char* p = op.p.c_str();
        if (K == "trunc")
            call(r, [&] { return m.fo.truncate(p, (off_t)op.len); });
        else if (K == "chmod")
            call(r, [&] { return m.fo.chmod(p, (x->kind == KD ? S_IFDIR : S_IFREG) | op.mode); });
        else if (K == "chown")
            call(r, [&] { return m.fo.chown(p, (uint32_t)op.a, (uint32_t)op.b); });
        else if (K == "utimens")
        {
            auto split = [](int64_t t) -> timespec
            {
                int64_t ns = (t % 1000000000 + 1000000000) % 1000000000;
                return {(t - ns) / 1000000000, ns};
            };
            timespec ts[2] = {split(op.a), split(op.b)};
            call(r, [&] { return m.fo.utimens(p, ts); });
        }
        else if (K == "readlink")
        {
            char buf[4097];
            memset(buf, 0, sizeof buf);
            call(r, [&] { return m.fo.readlink(p, buf, sizeof buf); });
            buf[4096] = 0;
            r.data = buf;
        }
        else if (K == "setx")
        {
            std::string val = gen_data(op.ds, op.len);
            call(r,
                 [&]
                 {
                     return m.fo.setxattr(
                         p, op.q.c_str(), val.empty() ? "" : val.data(), val.size(), op.flags);
                 });
        }
        else if (K == "getx")
        {
            r.data.assign(1024, 'Z');
            call(r, [&] { return m.fo.getxattr(p, op.q.c_str(), r.data.data(), r.data.size()); });
            r.data.resize(r.rc < 0 || r.rc > 1024 ? 0 : r.rc);
        }
        else if (K == "listx")
        {
            std::string b(8192, 'Z');
            call(r, [&] { return m.fo.listxattr(p, b.data(), b.size()); });
            for (int i = 0; r.rc > 0 && i < r.rc && i < (int)b.size();)
            {
                std::string n(b.c_str() + i);
                i += (int)n.size() + 1;
                r.dup |= !r.names.insert(n).second;
            }
        }
        else if (K == "remx")
            call(r, [&] { return m.fo.removexattr(p, op.q.c_str()); });
        else
            sim::harness_error("unknown concurrent op " + K);
        record();
        release();
    }
    // names that are known to be links to one file
    std::map<int, int> same;
    int rep(int id)
    {
        auto it = same.find(id);
        return it == same.end() ? id : it->second;
    }
    bool same_object(KN* a, KN* b) { return rep(a->id) == rep(b->id); }

    // ------------------------------------------------------------------ the specification
    bool stat_ok(const Node& n, const Rec& r)
    {
        auto& st = r.st;
        uint32_t t = n.kind == KD ? S_IFDIR : n.kind == KF ? S_IFREG : S_IFLNK;
        if ((st.st_mode & S_IFMT) != t)
            return false;
        if (n.kind == KF)
        {
            if (!r.fuzzy && (uint64_t)st.st_size != n.data.size)
                return false;
            if ((int)st.st_nlink != n.nlink)
                return false;
        }
        if (n.kind == KL && (size_t)st.st_size != n.target.size())
            return false;
        if (n.kind != KL && (st.st_mode & 0777) != (n.mode & 0777))
            return false;
        return n.id == 1 || (st.st_uid == n.uid && st.st_gid == n.gid);
    }
    // Is this the result the operation has in this state? The state is changed accordingly.
    bool spec(Model& mo, HandleMap& hm, const Rec& r)
    {
        const Op& op = r.op;
        const std::string& K = op.k;
        auto hn = [&]() -> Node* { return hm.count(op.h) ? hm[op.h].first.get() : nullptr; };
        if (K == "stat")
        {
            NodeP n = mo.find(op.p);
            if (!n)
                return r.rc == -ENOENT;
            return r.rc == 0 && stat_ok(*n, r);
        }
        if (K == "fstat")
            return r.rc == 0 && hn() && stat_ok(*hn(), r);
        if (K == "read")
        {
            Node* n = hn();
            return n && r.rc >= 0 && r.data == n->data.read(op.off, op.len);
        }
        if (K == "write")
        {
            Node* n = hn();
            if (!n || r.rc != (int)op.len)
                return false;
            n->data.write(op.off, gen_data(op.ds, op.len));
            return true;
        }
        if (K == "flush" || K == "close" || K == "fsync" || K == "statfs")
            return r.rc == 0;
        if (K == "readdirh")
        {
            Node* n = hn();
            if (!n || r.rc < 0 || r.dup || n->ents.size() != r.names.size())
                return false;
            for (auto& x : n->ents)
                if (!r.names.count(x.second.name))
                    return false;
            return true;
        }
        NodeP n = mo.find(op.p);
        if (K == "readlink")
            return n && n->kind == KL && r.rc == 0 && r.data == n->target;
        if (K == "getx")
        {
            if (!n)
                return r.rc == -ENOENT;
            auto it = n->xattrs.find(op.q);
            return it == n->xattrs.end() ? r.rc == -ENODATA : r.rc >= 0 && r.data == it->second;
        }
        if (K == "listx")
        {
            if (!n)
                return r.rc == -ENOENT;
            if (r.rc < 0 || r.dup || r.names.size() != n->xattrs.size())
                return false;
            for (auto& x : n->xattrs)
                if (!r.names.count(x.first))
                    return false;
            return true;
        }
        int want = model_apply(mo, e.v, hm, op);
        if (want > 0)
            return r.rc == -want;
        return want == 0 && r.rc >= 0;
    }
    static uint64_t hash_model(const Model& mo, const HandleMap& hm)
    {
        uint64_t x = 7;
        std::map<const Node*, int> num;
        std::function<void(const Node*)> rec = [&](const Node* n)
        {
            auto [it, fresh] = num.emplace(n, (int)num.size());
            x = sim::mix64(x, it->second);
            if (!fresh)
                return;
            x = sim::mix64(x, (uint64_t)n->kind * 1000003 + n->mode + ((uint64_t)n->nlink << 32));
            x = sim::mix64(x, ((uint64_t)n->uid << 32) + n->gid);
            x = sim::mix64(x, n->data.size);
            for (auto& p : n->data.pages)
                x = sim::hash_str(p.second, x + p.first);
            x = sim::hash_str(n->target, x);
            for (auto& a : n->xattrs)
                x = sim::hash_str(a.second, sim::hash_str(a.first, x));
            for (auto& c : n->ents)
            {
                x = sim::hash_str(c.second.name, x);
                rec(c.second.n.get());
            }
        };
        rec(mo.root.get());
        for (auto& h : hm)
        {
            x = sim::mix64(x, h.first);
            rec(h.second.first.get());
        }
        return x;
    }
    // Everything that can be observed once all is quiet.
    std::string snap_model(const Model& mo, const HandleMap& hm)
    {
        std::string s;
        std::map<const Node*, int> num;
        mo.walk(
            [&](const std::string& p, const NodeP& n)
            {
                auto [it, fresh] = num.emplace(n.get(), (int)num.size());
                s += strf("%s k%d #%d", p.c_str(), n->kind, n->kind != KD ? it->second : 0);
                if (n->kind != KL)
                    s += strf(" %o", n->mode & 0777);
                if (n->id != 1)
                    s += strf(" u%d:%d", (int)n->uid, (int)n->gid);
                if (n->kind == KF)
                {
                    s += strf(" n%d s%llu", n->nlink, (unsigned long long)n->data.size);
                    if (fresh)
                        s += strf(" h%llx",
                                  (unsigned long long)sim::hash_str(
                                      n->data.read(0, n->data.size)));
                }
                if (n->kind != KL && e.v.xattr)
                    for (auto& a : n->xattrs)
                        s += " " + a.first + "=" + strf("%llx", (unsigned long long)sim::hash_str(a.second));
                if (n->kind == KL)
                    s += strf(" n%d -> ", n->nlink) + n->target;
                s += "\n";
            });
        for (auto& [slot, c] : chs)
            if (!c.closing && !c.h.dir && c.h.acc != O_WRONLY && hm.count(slot))
            {
                auto& d = hm.at(slot).first->data;
                s += strf("handle %d s%llu h%llx\n",
                          slot,
                          (unsigned long long)d.size,
                          (unsigned long long)sim::hash_str(d.read(0, d.size)));
            }
        return s;
    }
    std::string snap_real()
    {
        std::string s;
        std::map<uint64_t, int> num;
        int cnt = 0;
        std::function<void(const std::string&)> rec = [&](const std::string& p)
        {
            struct stat st;
            int rc = k.getattr(p, &st);
            if (rc < 0)
            {
                s += strf("%s getattr fails with errno %d\n", p.c_str(), -rc);
                return;
            }
            Kind kd = S_ISDIR(st.st_mode) ? KD : S_ISLNK(st.st_mode) ? KL : KF;
            int my = cnt;
            bool fresh = true;
            if (kd != KD)
            {
                auto [it, f] = num.emplace(st.st_ino, cnt);
                my = it->second;
                fresh = f;
            }
            if (fresh)
                ++cnt;
            s += strf("%s k%d #%d", p.c_str(), kd, kd != KD ? my : 0);
            if (kd != KL)
                s += strf(" %o", st.st_mode & 0777);
            if (p != "/")
                s += strf(" u%d:%d", (int)st.st_uid, (int)st.st_gid);
            if (kd == KF)
            {
                s += strf(" n%d s%llu", (int)st.st_nlink, (unsigned long long)st.st_size);
                if (fresh)
                {
                    Blob b;
                    rc = k.read_all(p, b);
                    if (rc < 0)
                        s += strf(" read fails with errno %d", -rc);
                    else
                        s += strf(" h%llx", (unsigned long long)sim::hash_str(b.read(0, b.size)));
                }
            }
            if (kd != KL && e.v.xattr)
            {
                std::set<std::string> names;
                rc = k.listxattr(p, names, -1);
                if (rc < 0)
                    s += strf(" listxattr fails with errno %d", -rc);
                for (auto& n : names)
                {
                    std::string v;
                    rc = k.getxattr(p, n, v, -1);
                    s += " " + n + "="
                        + (rc < 0 ? strf("errno %d", -rc)
                                  : strf("%llx", (unsigned long long)sim::hash_str(v)));
                }
            }
            if (kd == KL)
            {
                std::string t;
                rc = k.readlink(p, t);
                s += rc < 0 ? strf(" readlink fails with errno %d", -rc) : strf(" n%d -> ", (int)st.st_nlink) + t;
            }
            s += "\n";
            if (kd == KD)
            {
                std::vector<DirEnt> l;
                rc = k.list(p, l);
                if (rc < 0)
                    s += strf("%s listing fails with errno %d\n", p.c_str(), -rc);
                std::multiset<std::string> names;
                for (auto& x : l)
                    if (x.name != "." && x.name != "..")
                        names.insert(x.name);
                for (auto& n : names)
                    rec(p == "/" ? "/" + n : p + "/" + n);
            }
        };
        rec("/");
        for (auto& [slot, c] : chs)
            if (!c.closing && !c.h.dir && c.h.acc != O_WRONLY)
            {
                std::string all, got;
                int rc;
                while ((rc = k.read(c.h, all.size(), 1 << 17, got)) > 0)
                    all += got;
                if (rc < 0)
                    s += strf("handle %d read fails with errno %d\n", slot, -rc);
                else
                    s += strf("handle %d s%llu h%llx\n",
                              slot,
                              (unsigned long long)all.size(),
                              (unsigned long long)sim::hash_str(all));
            }
        return s;
    }
    std::string history()
    {
        std::string s;
        std::vector<const Rec*> v;
        for (auto& r : hist)
            v.push_back(&r);
        std::sort(v.begin(), v.end(), [](auto a, auto b) { return a->inv < b->inv; });
        for (auto r : v)
        {
            s += strf("\n  [%llu,%llu] t%d rc=%d %s",
                      (unsigned long long)r->inv,
                      (unsigned long long)r->res,
                      r->thr,
                      r->rc,
                      r->op.str().c_str());
            if (r->op.k == "stat" || r->op.k == "fstat")
                s += strf(" => mode %o size %lld nlink %d uid %u",
                          r->st.st_mode,
                          (long long)r->st.st_size,
                          (int)r->st.st_nlink,
                          r->st.st_uid);
            else if (!r->data.empty())
                s += strf(" => %zu bytes %s", r->data.size(), show(r->data, 12).c_str());
            else if (r->op.k == "readdirh" || r->op.k == "listx")
            {
                s += " => {";
                for (auto& n : r->names)
                    s += " " + show(n, 12);
                s += " }";
            }
        }
        return s;
    }
    // Searches an order that explains all results and the state everything ended in.
    void linearize()
    {
        std::vector<std::vector<Rec*>> thr;
        {
            std::map<int, std::vector<Rec*>> by;
            for (auto& r : hist)
                by[r.thr].push_back(&r);
            for (auto& b : by)
            {
                std::sort(b.second.begin(),
                          b.second.end(),
                          [](auto a, auto c) { return a->inv < c->inv; });
                thr.push_back(b.second);
            }
        }
        if (!e.v.full)
            for (auto& r : hist)
                if (r.op.k == "stat" || r.op.k == "fstat")
                    for (auto& o : hist)
                        if (o.thr != r.thr && o.inv < r.res && r.inv < o.res
                            && (o.op.k == "write" || o.op.k == "ftrunc" || o.op.k == "trunc"))
                            r.fuzzy = true;
        std::string want;
        {
            sim::begin_op(-2);
            want = snap_real();
            sim::end_op();
        }
        std::unordered_set<uint64_t> seen;
        uint64_t states = 0;
        bool capped = false;
        size_t best = 0, finals = 0;
        std::vector<size_t> pos(thr.size());
        std::vector<size_t> best_pos(thr.size());
        std::string last_final;
        Model found;
        HandleMap found_h;
        std::function<bool(const Model&, const HandleMap&, size_t)> dfs
            = [&](const Model& mo, const HandleMap& hm, size_t done) -> bool
        {
            if (done >= best)
            {
                best = done;
                best_pos = pos;
            }
            if (done == hist.size())
            {
                ++finals;
                std::string s = snap_model(mo, hm);
                if (s == want)
                {
                    found = mo;
                    found_h = hm;
                    return true;
                }
                last_final = s;
                return false;
            }
            if (++states > 30000)
            {
                capped = true;
                return true;
            }
            // an operation may come first when none of the others returned before it was called
            uint64_t first_res = ~0ull;
            for (size_t t = 0; t < thr.size(); ++t)
                if (pos[t] < thr[t].size())
                    first_res = std::min(first_res, thr[t][pos[t]]->res);
            std::vector<size_t> cand;
            for (size_t t = 0; t < thr.size(); ++t)
                if (pos[t] < thr[t].size() && thr[t][pos[t]]->inv < first_res)
                    cand.push_back(t);
            std::sort(cand.begin(),
                      cand.end(),
                      [&](size_t a, size_t b) { return thr[a][pos[a]]->res < thr[b][pos[b]]->res; });
            for (size_t t : cand)
            {
                std::map<Node*, NodeP> remap;
                Model m2 = mo.clone(&remap);
                HandleMap h2;
                for (auto& [s, x] : hm)
                {
                    auto it = remap.find(x.first.get());
                    if (it == remap.end())
                        it = remap.emplace(x.first.get(), std::make_shared<Node>(*x.first)).first;
                    h2[s] = {it->second, x.second};
                }
                if (!spec(m2, h2, *thr[t][pos[t]]))
                    continue;
                ++pos[t];
                uint64_t key = hash_model(m2, h2);
                for (auto p : pos)
                    key = sim::mix64(key, p);
                bool ok = seen.insert(key).second && dfs(m2, h2, done + 1);
                --pos[t];
                if (ok)
                    return true;
            }
            return false;
        };
        HandleMap hm;
        for (auto& [s, hd] : e.hs)
            hm[s] = {hd.node, hd.dir ? -1 : hd.acc};
        bool ok = dfs(e.model, hm, 0);
        if (capped)
        {
            sim::probe("linearization search capped");
            sim::finish_ok();
        }
        if (!ok)
        {
            std::string w;
            if (finals)
                w = "every order that explains the results ends in a state other than the one found."
                    "\nfound:\n"
                    + want + "one order gives:\n" + last_final;
            else
            {
                w = strf("no order of the concurrent operations explains their results; at most %zu "
                         "of %zu can be, then none of:",
                         best,
                         hist.size());
                for (size_t t = 0; t < thr.size(); ++t)
                    if (best_pos[t] < thr[t].size())
                        w += strf(" op %d", thr[t][best_pos[t]]->op.id);
            }
            sim::violation(finals ? "lost-effect" : "not-linearizable",
                           w + "\nhistory (call, return, thread, result):" + history());
        }
        // go on from that state
        e.model = found;
        e.hs.clear();
        e.model.walk([](const std::string&, const NodeP& n) { n->opens = 0; });
        for (auto& [slot, c] : chs)
        {
            if (c.closing || !found_h.count(slot))
                continue;
            Handle hd = c.h;
            hd.node = found_h[slot].first;
            hd.node->opens = 0;
            e.hs[slot] = hd;
        }
        for (auto& [s, hd] : e.hs)
            ++hd.node->opens;
        e.model.walk(
            [](const std::string&, const NodeP& n)
            {
                n->mt_exact = n->at_exact = false;
                n->mt_lo = -1;
                n->ino = 0;
            });
    }
};

void run_burst(Engine& e, const std::vector<const Op*>& ops)
{
    Conc c(e);
    c.build();
    // which names are links to one file already
    {
        std::map<Node*, int> first;
        e.model.walk(
            [&](const std::string& p, const NodeP& n)
            {
                if (n->kind == KD)
                    return;
                LS ls;
                std::string ms;
                KN* d = c.dir_of(p, ls, ms);
                KN* x = c.child(d, p);
                auto [it, fresh] = first.emplace(n.get(), x->id);
                if (!fresh)
                    c.same[x->id] = it->second;
            });
    }
    std::map<int, std::vector<const Op*>> by;
    for (auto o : ops)
        by[o->thr].push_back(o);
    std::vector<int> tids;
    for (auto& [t, v] : by)
    {
        auto* list = &v;
        tids.push_back(sim::spawn(
            [&c, list]
            {
                for (auto o : *list)
                {
                    sim::begin_op(o->id);
                    c.run(*o);
                    sim::end_op();
                }
            }));
    }
    for (int t : tids)
        sim::join(t);
    if (c.max_par > 1)
        sim::probe("requests in flight together");
    sim::begin_op(-3);
    c.linearize();
    sim::end_op();
}

void run_conc(Plan& p)
{
    if (p.ci("free"))
        return run_free(p);
    Engine e(p);
    e.init_volume();
    e.mount();
    for (size_t i = 0; i < p.ops.size();)
    {
        if (!p.ops[i].thr)
        {
            e.exec(p.ops[i++]);
            continue;
        }
        std::vector<const Op*> burst;
        while (i < p.ops.size() && p.ops[i].thr)
            burst.push_back(&p.ops[i++]);
        run_burst(e, burst);
    }
    sim::begin_op(-1);
    e.verify_all("at the end");
    e.unmount();
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    e.check_storage();
    sim::end_op();
}

// ------------------------------------------------------------------ generation
struct CGen : Gen
{
    using Gen::Gen;
    std::vector<std::string> files, dirs;    // the hot set of a burst
    int slot = 100;
    bool churn = false;
    std::string some(int kind)
    {
        if (r.pct(60))
        {
            auto& v = kind == KD ? dirs : files;
            if (!v.empty() && kind != KL)
                return r.pick(v);
        }
        return any_path(kind);
    }
    std::string fresh()
    {
        std::string d = dirs.empty() ? "/" : r.pick(dirs);
        return (d == "/" ? "" : d) + "/" + comp();
    }
    Op& at(int thr, const char* k)
    {
        Op& o = p.add(k);
        o.thr = thr;
        return o;
    }
    std::vector<int> slots(bool dir, int thr, std::map<int, std::vector<int>>& own)
    {
        std::vector<int> s;
        for (auto& [i, x] : hs)
            if ((x.second == -1) == dir)
                s.push_back(i);
        if (!dir)
            for (int i : own[thr])
                s.push_back(i);
        return s;
    }
    bool attr_bursts = false;
    void burst(bool names_only, int nthr, int nops)
    {
        std::map<int, std::vector<int>> own;
        size_t from = p.ops.size();
        bool attrs = attr_bursts && r.chance(1, 8);
        files.clear();
        dirs = {"/"};
        for (int i = 0; i < 2; ++i)
        {
            auto f = any_path(KF);
            if (!f.empty())
                files.push_back(f);
            dirs.push_back(dir_path());
        }
        auto data_op = [&](int t)
        {
            auto s = slots(false, t, own);
            if (s.empty() || r.pct(12))
            {
                auto f = some(KF);
                if (f.empty())
                    return;
                Op& o = at(t, "open");
                o.p = f;
                o.h = slot++;
                o.flags = r.pct(80) ? O_RDWR : r.oneof({O_RDONLY, O_WRONLY});
                if (r.pct(10) && (o.flags & O_ACCMODE) != O_RDONLY)
                    o.flags |= O_TRUNC;
                own[t].push_back(o.h);
                return;
            }
            int h = r.pick(s);
            switch (r.below(12))
            {
            case 0:
            case 1:
            case 2:
            {
                Op& o = at(t, "read");
                o.h = h;
                o.off = r.pct(40) ? 0 : pos(max_size);
                o.len = r.pct(50) ? max_size : 1 + r.below(5000);
                break;
            }
            case 3:
            case 4:
            case 5:
            case 6:
            {
                Op& o = at(t, "write");
                o.h = h;
                o.off = pos(max_size * 3 / 4);
                o.len = 1 + r.below(r.pct(50) ? 100 : 5000);
                o.ds = r.next() >> 1;
                break;
            }
            case 7:
            {
                Op& o = at(t, "ftrunc");
                o.h = h;
                o.len = pos(max_size);
                break;
            }
            case 8:
                at(t, r.pct(50) ? "flush" : "fsync").h = h;
                break;
            case 9:
                at(t, "fstat").h = h;
                break;
            case 10:
                at(t, "close").h = h;
                break;
            default:
            {
                auto f = some(KF);
                if (!f.empty())
                {
                    Op& o = at(t, r.pct(60) ? "stat" : "trunc");
                    o.p = f;
                    o.len = pos(max_size);
                    o.a = r.below(2);
                }
            }
            }
        };
        auto name_op = [&](int t)
        {
            switch (r.below(18))
            {
            case 0:
            case 1:
            case 2:
            {
                Op& o = at(t, "open");
                o.p = fresh();
                o.h = slot++;
                o.flags = O_CREAT | O_RDWR | (r.pct(50) ? O_EXCL : 0);
                o.mode = r.oneof({0644, 0600, 0755});
                own[t].push_back(o.h);
                if (r.pct(70))
                {
                    Op& w = at(t, "write");
                    w.h = o.h;
                    w.len = 1 + r.below(300);
                    w.ds = r.next() >> 1;
                    w.off = 0;
                }
                if (r.pct(60))
                    at(t, "close").h = slot - 1;
                break;
            }
            case 3:
            {
                Op& o = at(t, "mkdir");
                o.p = fresh();
                o.mode = 0755;
                break;
            }
            case 4:
            {
                Op& o = at(t, "symlink");
                o.p = fresh();
                o.s = "to/" + comp();
                break;
            }
            case 5:
            case 6:
            case 7:
            {
                auto f = r.pct(70) ? some(KF) : fresh();
                if (!f.empty())
                    at(t, "unlink").p = f;
                break;
            }
            case 8:
            {
                auto f = r.pct(70) ? some(KD) : fresh();
                if (!f.empty() && f != "/")
                    at(t, "rmdir").p = f;
                break;
            }
            case 9:
            case 10:
            case 11:
            {
                bool dir = r.pct(25);
                auto f = r.pct(80) ? some(dir ? KD : KF) : fresh();
                if (f.empty() || f == "/")
                    break;
                Op& o = at(t, "rename");
                o.p = f;
                o.q = r.pct(60) ? fresh() : some(dir ? KD : KF);
                if (o.q.empty() || o.q == "/")
                    o.q = fresh();
                break;
            }
            case 12:
            {
                auto f = some(KF);
                if (f.empty())
                    break;
                Op& o = at(t, "link");
                o.p = f;
                o.q = fresh();
                break;
            }
            case 13:
            case 14:
            {
                std::string d = r.pick(dirs);
                at(t, "opendir").p = d;
                p.ops.back().h = slot;
                at(t, "readdirh").h = slot;
                if (r.pct(50))
                    at(t, "readdirh").h = slot;
                at(t, "closedir").h = slot;
                ++slot;
                break;
            }
            case 15:
            {
                auto f = r.pct(70) ? some(-1) : fresh();
                if (f.empty())
                    break;
                Op& o = at(t, "stat");
                o.p = f;
                o.a = r.below(2);
                break;
            }
            case 16:
            {
                auto f = any_path(KL);
                if (!f.empty() && r.pct(60))
                    at(t, "readlink").p = f;
                else
                    at(t, "statfs");
                break;
            }
            default:
                data_op(t);
            }
        };
        auto churn_op = [&](int t)
        {
            auto f = r.pct(80) ? any_path(r.pct(80) ? KF : KD) : fresh();
            switch (r.below(5))
            {
            case 4:
            {
                auto s = slots(false, t, own);
                if (!s.empty())
                    at(t, "close").h = r.pick(s);
                break;
            }
            case 0:
                if (f.size() > 1)
                    at(t, "unlink").p = f;
                break;
            case 1:
                if (f.size() > 1)
                    at(t, "rmdir").p = f;
                break;
            case 2:
                at(t, "mkdir").p = fresh();
                p.ops.back().mode = 0755;
                break;
            default:
                at(t, "open").p = fresh();
                p.ops.back().h = slot;
                p.ops.back().flags = O_CREAT | O_RDWR;
                p.ops.back().mode = 0644;
                own[t].push_back(slot++);
                if (r.pct(60))
                    at(t, "close").h = slot - 1;
            }
        };
        auto attr_op = [&](int t)
        {
            auto f = some(r.pct(80) ? KF : KD);
            if (f.empty() || f == "/")
                return;
            unsigned kind = (unsigned)r.below(v.xattr ? 8 : 3);
            if (attrs && v.xattr && kind < 3)
                kind += 3;
            switch (kind)
            {
            case 0:
                at(t, "chmod").p = f;
                p.ops.back().mode = r.oneof({0600, 0644, 0755, 0700});
                break;
            case 1:
            {
                Op& o = at(t, "chown");
                o.p = f;
                o.a = r.oneof({-1, 0, 1000, 7});
                o.b = r.oneof({-1, 0, 1000, 7});
                break;
            }
            case 2:
            {
                Op& o = at(t, "utimens");
                o.p = f;
                o.a = 1000000000ll * (int64_t)r.below(2000000000);
                o.b = 1000000000ll * (int64_t)r.below(2000000000);
                break;
            }
            case 3:
            case 4:
            {
                Op& o = at(t, "setx");
                o.p = f;
                o.q = r.oneof({"user.a", "user.b"});
                o.len = r.below(60);
                o.ds = r.next() >> 1;
                o.flags = r.oneof<int>({0, 0, XATTR_CREATE, XATTR_REPLACE});
                break;
            }
            case 5:
            case 6:
            {
                Op& o = at(t, r.pct(60) ? "getx" : "listx");
                o.p = f;
                o.q = r.oneof({"user.a", "user.b"});
                break;
            }
            default:
            {
                Op& o = at(t, "remx");
                o.p = f;
                o.q = r.oneof({"user.a", "user.b"});
            }
            }
        };
        for (int t = 1; t <= nthr; ++t)
        {
            size_t n0 = p.ops.size();
            while (p.ops.size() < n0 + nops)
            {
                unsigned x = (unsigned)r.below(100);
                size_t b = p.ops.size();
                if (attrs && x < 80)
                    attr_op(t);
                else if (churn)
                    churn_op(t);
                else if (names_only)
                    x < 85 ? name_op(t) : x < 93 ? data_op(t) : attr_op(t);
                else
                    x < 82 ? data_op(t) : x < 90 ? attr_op(t) : name_op(t);
                if (p.ops.size() == b)
                    at(t, "statfs");
            }
        }
        // keep the generator's model roughly in step
        for (size_t i = from; i < p.ops.size(); ++i)
        {
            Op& o = p.ops[i];
            if (o.k == "open")
            {
                if (!m.find(o.p) && (o.flags & O_CREAT))
                    m.create(o.p, KF, o.mode);
            }
            else if (o.k == "close" && hs.count(o.h))
                hs.erase(o.h);
            else if (o.k == "mkdir" || o.k == "unlink" || o.k == "rmdir" || o.k == "rename"
                     || o.k == "link" || o.k == "symlink")
                model_apply(m, v, hs, o);
        }
    }
};

Plan gen_conc(const char* id, uint64_t seed, bool thorough)
{
    CGen g(id, seed);
    bool k3 = std::string(id) == "K03";
    if (std::string(id) != "K01" && sim::mix64(seed, 0xf2ee) % 6 == 0)
        return gen_free(id, seed, thorough);
    bool nm = std::string(id) == "K02" || (k3 && g.r.chance(2, 3));
    bool full = g.r.chance(k3 ? 2 : 1, k3 ? 3 : 2);
    g.config(full);
    g.p.set("check_xattr", 1);
    g.p.set("gensched", 1);
    g.p.set("preempt", g.r.oneof({3, 10, 30, 80, 150, 300}));
    g.p.set("wprio", g.r.below(2));
    if (g.r.chance(1, 3))
    {
        g.p.set("prio", g.r.oneof({1, 10, 50, 200}));
    }
    if (full && g.r.chance(1, 2))
        g.p.set("few_ids", g.r.oneof({1, 3}));
    g.max_size = nm ? 3000 : 14000;
    g.max_depth = 2;
    g.names = {"a", "b", "c", "d"};
    if (nm)
    {
        g.names.push_back("e");
        if (!full && g.p.ci("longname") && g.r.chance(1, 2))
            for (char c : {'L', 'M'})
                g.names.push_back(std::string(140, c));
    }
    g.finish_config();
    g.max_handles = 5;
    g.attr_bursts = true;
    std::vector<std::pair<const char*, int>> pre = {{"mkfile", 30}, {"mkdir", nm ? 14 : 5}, {"symlink", nm ? 4 : 1}, {"open", nm ? 8 : 22}, {"write", 10}};
    pre.push_back({"link", nm ? 4 : 8});
    if (nm)
        pre.push_back({"opendir", 4});
    // objects come and go in an almost empty repository
    g.churn = nm && g.r.chance(k3 ? 2 : 1, 5);
    if (g.churn)
    {
        for (int i = 0; i < 2; ++i)
        {
            Op& o = g.p.add("mkdir");
            o.p = std::string("/") + (i ? "b" : "a");
            o.mode = 0755;
            model_apply(g.m, g.v, g.hs, o);
        }
        g.fill({{"mkfile", 10}, {"open", 5}, {"unlink", 2}}, (int)g.r.range(1, 6));
    }
    else
        g.fill(pre, (int)g.r.range(4, 12));
    // enough closed files that some are dropped from the cache
    if (k3 && full && g.r.chance(1, 12))
    {
        g.p.set("few_ids", 1);
        for (int i = 0; i < 300; ++i)
            g.names.push_back(sim::strf("n%d", i));
        g.fill({{"mkfile", 100}}, (int)g.r.range(104, 130));
    }
    int bursts = (int)g.r.range(1, thorough ? 8 : 5);
    for (int b = 0; b < bursts; ++b)
    {
        g.burst(nm, (int)g.r.range(2, 4), (int)g.r.range(2, thorough ? 8 : 6));
        if (g.r.chance(1, 3))
            g.fill({{"mkfile", 5}, {"unlink", 3}, {"open", 5}, {"close", 3}, {"rename", 3}, {"remount", 2}}, (int)g.r.range(1, 4));
    }
    return g.p;
}
}    // namespace

extern const std::vector<Prop> kConcProps;
const std::vector<Prop> kConcProps = {
    {"K01", [](uint64_t s, bool t) { return gen_conc("K01", s, t); }, run_conc, "concurrent file operations", 2},
    {"K02", [](uint64_t s, bool t) { return gen_conc("K02", s, t); }, run_conc, "concurrent name space operations", 2},
    {"K03", [](uint64_t s, bool t) { return gen_conc("K03", s, t); }, run_conc, "memory under concurrency", 2},
};
}    // namespace h
