// Sequential engine: every operation is executed on the real code and on the model, and compared.
#include "h.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/xattr.h>

namespace h
{
static bool exact_errno(int e)
{
    return e == ENOENT || e == EEXIST || e == ENOTEMPTY || e == ENODATA || e == ERANGE
        || e == ENOTDIR || e == EISDIR;
}
static int64_t tsns(const timespec& t) { return (int64_t)t.tv_sec * 1000000000ll + t.tv_nsec; }

Engine::Engine(Plan& p) : plan(p), v(VolCfg::from(p))
{
    model.full = v.full;
    model.ci_names = v.full ? v.ci : v.fold;
    model.nfc_names = v.full ? v.uni : v.nfc;
    model.name_max = v.name_max();
    model.target_ok = [v = v](const std::string& t) { return v.target_ok(t); };
    model.name_long = v.name_long();
    model.root = std::make_shared<Node>();
    model.root->id = 1;
    model.root->kind = KD;
    model.root->mode = 0755;
    model.uid = v.full ? 1000 : 0;
    model.gid = v.full ? 1000 : 0;
}
void Engine::fail(const Op& op, const std::string& tag, const std::string& msg)
{
    sim::violation(tag, msg + "\n  at: " + op.str());
}
void Engine::init_volume()
{
    sim::begin_op(-1000);
    if (::mkdir(g_data_dir.c_str(), 0755) != 0 && errno != EEXIST)
        sim::harness_error("cannot create the data directory");
    sim::end_op();
}
void Engine::mount()
{
    mnt = make_mount ? make_mount() : std::make_unique<Mount>(v);
    k = std::make_unique<Kernel>(*mnt);
    k->cached = plan.ci("dcache") != 0;
}
void Engine::unmount()
{
    for (auto& [i, hd] : hs)
    {
        if (hd.dir)
            k->releasedir(hd);
        else
            k->close(hd);
        if (hd.node)
        {
            --hd.node->opens;
            hd.node->unflushed = false;
        }
    }
    hs.clear();
    k.reset();
    mnt.reset();
    if (sim::open_sim_fds() > (size_t)plan.ci("fd_slack", 3))
    {
        // descriptors that outlive the mount
        sim::violation("fd-leak",
                       strf("%zu descriptors are still open after unmounting", sim::open_sim_fds()));
    }
}

static std::string tkind(uint32_t t)
{
    return S_ISDIR(t) ? "dir" : S_ISREG(t) ? "file" : S_ISLNK(t) ? "symlink" : strf("type %o", t);
}
static uint32_t kmode(Kind k) { return k == KD ? S_IFDIR : k == KF ? S_IFREG : S_IFLNK; }

static std::string check_stat(Engine& e, Node& n, const struct stat& st, const std::string& p)
{
    auto S = show(p, 60);
    if ((st.st_mode & S_IFMT) != kmode(n.kind))
        return S + ": type is " + tkind(st.st_mode) + ", should be " + tkind(kmode(n.kind));
    if (n.kind == KF && !n.lost && !n.fuzzy && n.alts.empty() && (uint64_t)st.st_size != n.data.size)
        return S
            + strf(": size is %lld, should be %llu",
                   (long long)st.st_size,
                   (unsigned long long)n.data.size);
    if (n.kind == KL && (size_t)st.st_size != n.target.size())
        return S
            + strf(": symlink size is %lld, should be %zu", (long long)st.st_size, n.target.size());
    if (n.kind != KD && (int)st.st_nlink != n.nlink)
        return S + strf(": link count is %d, should be %d", (int)st.st_nlink, n.nlink);
    if (!n.attr_uncertain)
    {
        if (n.kind != KL && (st.st_mode & 0777) != (n.mode & 0777))
            return S + strf(": mode is %o, should be %o", st.st_mode & 0777, n.mode & 0777);
        uint32_t wu = n.uid, wg = n.gid;
        if (e.v.full && e.v.uid_override >= 0)
            wu = e.v.uid_override;
        if (e.v.full && e.v.gid_override >= 0)
            wg = e.v.gid_override;
        if ((n.id != 1 || n.owner_set) && (st.st_uid != wu || st.st_gid != wg))
            return S + strf(": owner is %u:%u, should be %u:%u", st.st_uid, st.st_gid, wu, wg);
        if (n.kind != KF && !n.fuzzy && n.mt_exact && (!e.v.full || e.v.store_time)
            && tsns(st.st_mtim) != tsns(n.mt))
            return S
                + strf(": mtime is %lld.%09ld, was set to %lld.%09ld",
                       (long long)st.st_mtim.tv_sec,
                       st.st_mtim.tv_nsec,
                       (long long)n.mt.tv_sec,
                       n.mt.tv_nsec);
        if (n.kind == KF && !n.fuzzy)
        {
            int64_t mt = tsns(st.st_mtim);
            if (n.mt_exact && mt != tsns(n.mt))
                return S
                    + strf(": mtime is %lld.%09ld, was set to %lld.%09ld",
                           (long long)st.st_mtim.tv_sec,
                           st.st_mtim.tv_nsec,
                           (long long)n.mt.tv_sec,
                           n.mt.tv_nsec);
            if (n.at_exact && tsns(st.st_atim) != tsns(n.at))
                return S
                    + strf(": atime is %lld.%09ld, was set to %lld.%09ld",
                           (long long)st.st_atim.tv_sec,
                           st.st_atim.tv_nsec,
                           (long long)n.at.tv_sec,
                           n.at.tv_nsec);
            if (!n.mt_exact && n.mt_lo >= 0 && (mt < n.mt_lo || mt > n.mt_hi))
                return S
                    + strf(": mtime is %lld ns, should be within [%lld, %lld] (time of the last "
                           "modification)",
                           (long long)mt,
                           (long long)n.mt_lo,
                           (long long)n.mt_hi);
        }
    }
    if (n.ino && n.ino != st.st_ino)
        return S
            + strf(": inode number changed from %llu to %llu",
                   (unsigned long long)n.ino,
                   (unsigned long long)st.st_ino);
    n.ino = st.st_ino;
    return "";
}
// every byte of `got` must come from the current content or one of the allowed alternatives
std::string check_bytes(const Node& n, uint64_t off, size_t want, const std::string& got)
{
    if (n.alts.empty())
    {
        std::string exp = n.data.read(off, want);
        if (got == exp)
            return "";
        if (got.size() != exp.size())
            return strf("read at %llu len %zu returned %zu bytes, should return %zu",
                        (unsigned long long)off,
                        want,
                        got.size(),
                        exp.size());
        size_t i = 0;
        while (got[i] == exp[i])
            ++i;
        return strf("wrong data at offset %llu: got %s, should be %s",
                    (unsigned long long)(off + i),
                    show(got.substr(i), 12).c_str(),
                    show(exp.substr(i), 12).c_str());
    }
    uint64_t maxsz = n.data.size, minsz = n.data.size;
    for (auto& a : n.alts)
    {
        maxsz = std::max(maxsz, a.size);
        minsz = std::min(minsz, a.size);
    }
    if (off + got.size() > maxsz && !got.empty())
        return strf("read returned data beyond every possible end of file (%llu > %llu)",
                    (unsigned long long)(off + got.size()),
                    (unsigned long long)maxsz);
    for (size_t i = 0; i < got.size(); ++i)
    {
        uint8_t b = got[i];
        bool ok = b == 0 || n.data.at(off + i) == b;
        for (auto& a : n.alts)
            ok = ok || a.at(off + i) == b;
        // zero is plausible only where some candidate does not cover the byte or holds zero
        if (b == 0 && n.data.at(off + i) != 0)
        {
            bool z = off + i >= n.data.size || off + i >= minsz;
            for (auto& a : n.alts)
                z = z || a.at(off + i) == 0 || off + i >= a.size;
            ok = z;
        }
        if (!ok)
            return strf("byte at %llu is 0x%02x, which was never written there",
                        (unsigned long long)(off + i),
                        b);
    }
    return "";
}

std::string Engine::compare_tree(Model& m, bool content, bool)
{
    std::string bad;
    std::map<uint64_t, Node*> inos;
    std::set<Node*> seen;
    std::function<bool(const std::string&, const NodeP&)> rec
        = [&](const std::string& p, const NodeP& n) -> bool
    {
        struct stat st;
        std::string path = p.empty() ? "/" : p;
        int rc = k->getattr(path, &st);
        if (rc < 0 && n->allow_broken)
            return true;
        if (rc < 0)
        {
            bad = strf("getattr(%s) fails with %d, but it must exist", show(path, 60).c_str(), rc);
            return false;
        }
        bad = check_stat(*this, *n, st, path);
        if (!bad.empty())
            return false;
        if (n->ino)
        {
            auto it = inos.find(n->ino);
            if (it != inos.end() && it->second != n.get())
            {
                bad = show(path, 60) + ": shares its inode number with a different object";
                return false;
            }
            inos[n->ino] = n.get();
        }
        if (n->kind == KL)
        {
            std::string t;
            rc = k->readlink(path, t);
            if (rc < 0 || t != n->target)
            {
                bad = strf("readlink(%s) = %d '%s', should be '%s'",
                           show(path, 60).c_str(),
                           rc,
                           show(t, 80).c_str(),
                           show(n->target, 80).c_str());
                return false;
            }
        }
        if (content && n->kind == KF && !n->lost && !n->fuzzy && seen.insert(n.get()).second)
        {
            uint64_t lim = 1 << 22;
            Handle hd;
            rc = k->open(path, O_RDONLY, 0, hd);
            if (rc < 0)
            {
                bad = strf("open(%s) fails with %d", show(path, 60).c_str(), rc);
                return false;
            }
            // whole file when small, otherwise the populated pages
            auto chk = [&](uint64_t off, size_t len) -> bool
            {
                std::string got;
                int r = k->read(hd, off, len, got);
                if (r < 0)
                {
                    bad = strf("read(%s, off %llu, len %zu) fails with %d",
                               show(path, 60).c_str(),
                               (unsigned long long)off,
                               len,
                               r);
                    return false;
                }
                std::string w = check_bytes(*n, off, len, got);
                if (!w.empty())
                {
                    bad = show(path, 60) + ": " + w;
                    return false;
                }
                return true;
            };
            bool ok = true;
            if (n->data.size <= lim)
            {
                for (uint64_t o = 0; ok && o < n->data.size + 1; o += 1 << 17)
                    ok = chk(o, 1 << 17);
            }
            else
            {
                int cnt = 0;
                for (auto& pg : n->data.pages)
                {
                    if (++cnt > 64)
                        break;
                    if (ok && pg.first * Blob::P < n->data.size)
                        ok = chk(pg.first * Blob::P, 2 * Blob::P);
                }
                if (ok)
                    ok = chk(n->data.size - 100, 4096);
            }
            n->at_exact = false;    // reading updates it
            rc = k->close(hd);
            if (ok && rc < 0)
            {
                bad = strf("close(%s) fails with %d", show(path, 60).c_str(), rc);
                ok = false;
            }
            if (!ok)
                return false;
        }
        if (v.xattr && n->kind != KL && !n->xattr_uncertain && !n->allow_broken && (plan.ci("check_xattr") != 0))
        {
            std::set<std::string> names, want;
            rc = k->listxattr(path, names, -1);
            for (auto& x : n->xattrs)
                want.insert(x.first);
            if (rc < 0 || names != want)
            {
                bad = strf("listxattr(%s) = %d lists %zu attributes, should list %zu",
                           show(path, 60).c_str(),
                           rc,
                           names.size(),
                           want.size());
                return false;
            }
            for (auto& x : n->xattrs)
            {
                std::string val;
                rc = k->getxattr(path, x.first, val, -1);
                if (rc < 0 || val != x.second)
                {
                    bad = strf("getxattr(%s, %s) = %d '%s', should be '%s'",
                               show(path, 60).c_str(),
                               x.first.c_str(),
                               rc,
                               show(val).c_str(),
                               show(x.second).c_str());
                    return false;
                }
            }
        }
        if (n->kind == KD)
        {
            std::vector<DirEnt> l;
            rc = k->list(path, l);
            if (rc < 0)
            {
                bad = strf("listing %s fails with %d", show(path, 60).c_str(), rc);
                return false;
            }
            std::map<std::string, DirEnt> got;
            int dots = 0;
            for (auto& d : l)
            {
                if (d.name == "." || d.name == "..")
                {
                    ++dots;
                    continue;
                }
                if (!got.emplace(d.name, d).second)
                {
                    bad = strf(
                        "%s lists '%s' twice", show(path, 60).c_str(), show(d.name, 60).c_str());
                    return false;
                }
            }
            for (auto& ent : n->ents)
            {
                auto it = got.find(ent.second.name);
                if (it == got.end())
                {
                    bad = strf("listing of %s misses '%s'",
                               show(path, 60).c_str(),
                               show(ent.second.name, 60).c_str());
                    return false;
                }
                if (it->second.type && it->second.type != kmode(ent.second.n->kind))
                {
                    bad = strf("listing of %s shows '%s' as %s",
                               show(path, 60).c_str(),
                               show(ent.second.name, 60).c_str(),
                               tkind(it->second.type).c_str());
                    return false;
                }
                if (ent.second.n->ino && it->second.ino && ent.second.n->ino != it->second.ino)
                {
                    bad = strf("listing of %s shows '%s' with inode %llu, stat says %llu",
                               show(path, 60).c_str(),
                               show(ent.second.name, 60).c_str(),
                               (unsigned long long)it->second.ino,
                               (unsigned long long)ent.second.n->ino);
                    return false;
                }
                got.erase(it);
            }
            if (!got.empty())
            {
                bad = strf("listing of %s shows '%s', which should not exist",
                           show(path, 60).c_str(),
                           show(got.begin()->first, 80).c_str());
                return false;
            }
            for (auto& ent : n->ents)
                if (!rec(p + "/" + ent.second.name, ent.second.n))
                    return false;
        }
        return true;
    };
    rec("", m.root);
    return bad;
}
// After a clean unmount the repository holds exactly what the live objects need.
void Engine::check_storage()
{
    std::set<Node*> seen;
    std::map<std::string, int> want;
    size_t nodes = 0, entries = 0;
    model.walk(
        [&](const std::string&, const NodeP& n)
        {
            nodes += seen.insert(n.get()).second;
            entries += n->ents.size();
        });
    size_t files = 0, metas = 0, others = 0, ents = 0;
    std::string sample;
    std::function<void(uint64_t, const std::string&, bool)> rec
        = [&](uint64_t ino, const std::string& path, bool top)
    {
        auto* d = sim::disk->get(ino);
        for (auto& [name, c] : d->ents)
        {
            auto* i = sim::disk->get(c);
            if (v.full)
            {
                if (S_ISDIR(i->mode))
                    rec(c, path + "/" + name, false);
                else if (top)
                    ++others;
                else if (name.size() > 5 && name.compare(name.size() - 5, 5, ".meta") == 0)
                    ++metas;
                else
                    ++files;
                continue;
            }
            if (name == ".long_names.db" || (top && name[0] == '.'))
                continue;
            if (name.compare(0, 15, ".long_names.db-") == 0)
                sample = path + "/" + name;
            ++ents;
            if (S_ISDIR(i->mode))
                rec(c, path + "/" + name, false);
        }
    };
    uint64_t dd = sim::disk->resolve(g_data_dir);
    rec(dd, "", true);
    if (v.full && (files != nodes || metas != nodes))
        sim::violation("storage-leak",
                       strf("after unmounting, the repository stores %zu data and %zu meta files "
                            "for %zu objects",
                            files,
                            metas,
                            nodes));
    if (!v.full && ents != entries)
        sim::violation("storage-leak",
                       strf("after unmounting, the repository stores %zu directory entries for "
                            "%zu objects %s",
                            ents,
                            entries,
                            sample.c_str()));
}
void Engine::verify_all(const char* when)
{
    std::string bad = compare_tree(model, true);
    if (!bad.empty())
        sim::violation("state", strf("%s: %s", when, bad.c_str()));
    for (auto& [i, hd] : hs)
        if (!hd.dir && hd.node && (hd.acc == O_RDONLY || hd.acc == O_RDWR) && !hd.node->lost)
        {
            std::string got;
            size_t want = std::min<uint64_t>(hd.node->data.size + 10, 1 << 17);
            int rc = k->read(hd, 0, want, got);
            hd.node->at_exact = false;
            std::string w = rc < 0 ? strf("read fails with %d", rc)
                                   : check_bytes(*hd.node, 0, want, got);
            if (!w.empty())
                sim::violation("state",
                               strf("%s: open handle %d (%s): %s",
                                    when,
                                    i,
                                    show(hd.path, 60).c_str(),
                                    w.c_str()));
        }
}

Targets op_targets(Engine& e, const Op& op)
{
    Targets t;
    auto path = [&](const std::string& p)
    {
        if (p.empty())
            return;
        if (auto n = e.model.find(p))
            t.nodes.insert(n.get());
        for (std::string d = parent_of(p);; d = parent_of(d))
        {
            if (auto n = e.model.find(d))
                t.parents.insert(n.get());
            // with stored times, looking a name up changes the directory
            if (d == "/" || !e.v.store_time)
                break;
        }
    };
    if (op.k == "remount")
    {
        for (auto& [i, hd] : e.hs)
            if (hd.node)
                t.nodes.insert(hd.node.get());
        t.parents.insert(e.model.root.get());
        return t;
    }
    if (op.k == "tick")
        return t;
    path(op.p);
    if (op.k == "rename" || op.k == "link")
        path(op.q);
    auto it = e.hs.find(op.h);
    if (it != e.hs.end() && it->second.node)
    {
        t.handle = it->second.node.get();
        t.nodes.insert(t.handle);
        // the kernel looks the path up again for some requests
        path(it->second.path);
    }
    return t;
}

// closes a handle when an operation is left early
struct Closing
{
    Kernel& k;
    Handle& h;
    bool armed = true;
    ~Closing()
    {
        if (armed)
            k.close(h);
    }
};
// what an operation is expected to do; the model is changed by exec()
void Engine::exec(const Op& op)
{
    // Paths that lead through a symbolic link are resolved by the kernel: no such request is ever sent.
    if (model.through_link(op.p) || model.through_link(op.q))
        return;
    ++sim::R->ops;
    sim::begin_op(op.id);
    int64_t t0 = sim::now_ns();
    uint64_t faults0 = sim::faults_total();
    static const std::set<std::string> names_change
        = {"open", "create", "mkfile", "mkdir", "symlink", "rmdir", "unlink", "rename", "link"};
    if (names_change.count(op.k) && (op.k != "open" || (op.flags & O_CREAT)))
        for (auto& p : {op.p, op.q})
            for (auto& n : {model.find(p), model.parent(p)})
                if (n && n->kind == KD)
                    n->mt_exact = false;
    auto hit = [&](int want, int rc) -> bool
    {
        if (rc < 0)
            ++sim::R->ops_failed;
        sim::trace("op %d %s rc=%d want=%d", op.id, op.k.c_str(), rc, want);
        if (tolerant && rc < 0 && (cut ? cut() : sim::faults_total() != faults0))
            throw FaultHit{rc, want != 0};
        if (want == 0 && rc < 0)
            fail(op, "op-" + op.k, strf("%s fails with errno %d, should succeed", op.k.c_str(), -rc));
        if (want != 0 && rc >= 0)
            fail(op,
                 "op-" + op.k,
                 strf("%s succeeds, should fail with errno %d", op.k.c_str(), want));
        // a file renamed onto a directory above it: both errors describe the request
        bool same = -rc == want || (op.k == "rename" && want == ENOTEMPTY && rc == -EISDIR);
        if (want != 0 && exact_errno(want) && !same)
            fail(op,
                 "op-" + op.k,
                 strf("%s fails with errno %d, should fail with errno %d", op.k.c_str(), -rc, want));
        return want == 0;
    };
    auto touched = [&](Node& n)
    {
        // may or may not have counted as a modification
        if (n.mt_exact)
            n.mt_lo = -1;
        n.mt_exact = n.at_exact = false;
        n.mt_hi = sim::now_ns();
    };
    auto modified = [&](Node& n)
    {
        n.mt_exact = n.at_exact = false;
        n.mt_lo = t0;
        n.mt_hi = sim::now_ns();
        n.unflushed = true;
    };
    // a write or append of [off, end)
    auto wrote = [](Node& n, uint64_t off, uint64_t end)
    {
        n.dirty.push_back({std::min(off, n.data.size), std::max(end, n.data.size)});
        n.fresh = true;
    };
    auto resized = [](Node& n, uint64_t to)
    {
        if (n.data.size != to)
            n.dirty.push_back({std::min(to, n.data.size), std::max(to, n.data.size)});
        n.fresh = true;
    };
    auto hget = [&](bool dir) -> Handle*
    {
        auto it = hs.find(op.h);
        return it == hs.end() || it->second.dir != dir ? nullptr : &it->second;
    };
    const std::string& K = op.k;
    if (K == "open")
    {
        if (!hs.count(op.h))
        {
            NodeP n = model.find(op.p);
            int want = 0;
            int fl = op.flags;
            if (!n)
                want = (fl & O_CREAT) && model.parent(op.p) && model.name_ok(base_of(op.p)) ? 0 : model.lookup_err(op.p);
            else if ((fl & O_CREAT) && (fl & O_EXCL))
                want = EEXIST;
            else if (n->kind == KD)
                want = EISDIR;
            else if (n->kind == KL)
                want = ELOOP;
            Handle hd;
            bool created = false;
            int rc = k->open(op.p, fl, op.mode, hd, &created);
            if (hit(want, rc))
            {
                if (!n)
                {
                    model.create(op.p, KF, v.full ? op.mode & 0777 : op.mode | S_IRUSR);
                    n = model.find(op.p);
                    modified(*n);
                    if (created != true)
                        fail(op, "op-open", "the file was not created");
                }
                else if (fl & O_TRUNC)
                {
                    if (n->data.size)
                        modified(*n);
                    else
                        touched(*n);
                    resized(*n, 0);
                    n->data.truncate(0);
                }
                // opening may write the stream header of an empty file
                if (!v.full && n->data.size == 0)
                    touched(*n);
                hd.node = n;
                ++n->opens;
                hs[op.h] = hd;
            }
        }
    }
    else if (K == "mkfile")
    {
        int want = model.create(op.p, KF, v.full ? op.mode & 0777 : op.mode | S_IRUSR);
        Handle hd;
        int rc = k->open(op.p, O_CREAT | O_EXCL | O_RDWR, op.mode, hd);
        if (hit(want, rc))
        {
            Closing cl{*k, hd};
            NodeP n = model.find(op.p);
            modified(*n);
            if (op.len > 0)
            {
                std::string d = gen_data(op.ds, op.len);
                hit(0, k->write(hd, 0, d));
                n->data.write(0, d);
                modified(*n);
            }
            cl.armed = false;
            hit(0, k->close(hd));
            n->unflushed = false;
        }
    }
    else if (K == "close")
    {
        if (auto* hd = hget(false))
        {
            int rc = k->close(*hd);
            --hd->node->opens;
            hd->node->unflushed = false;
            hs.erase(op.h);
            hit(0, rc);
        }
    }
    else if (K == "flush")
    {
        if (auto* hd = hget(false))
        {
            hit(0, k->flush(*hd));
            hd->node->unflushed = false;
        }
    }
    else if (K == "fsync")
    {
        if (auto* hd = hget(false))
        {
            hit(0, k->fsync(*hd, op.a));
            hd->node->unflushed = false;
            hd->node->durable = hd->node->data;
            hd->node->has_durable = true;
            hd->node->since_durable.clear();
            hd->node->dirty.clear();
            hd->node->fresh = false;
        }
    }
    else if (K == "read")
    {
        auto* hd = hget(false);
        if (hd && (hd->acc == O_RDONLY || hd->acc == O_RDWR))
        {
            std::string got;
            int rc = k->read(*hd, op.off, op.len, got);
            hit(0, rc);
            hd->node->at_exact = false;
            std::string w = check_bytes(*hd->node, op.off, op.len, got);
            if (!w.empty())
                fail(op, "read-data", w);
        }
    }
    else if (K == "write" || K == "append")
    {
        auto* hd = hget(false);
        if (hd && (hd->acc == O_WRONLY || hd->acc == O_RDWR) && op.len > 0)
        {
            std::string d = gen_data(op.ds, op.len);
            uint64_t off = K == "append" ? hd->node->data.size : op.off;
            int rc = k->write(*hd, off, d);
            if (hit(off + d.size() > v.max_file() ? EFBIG : 0, rc))
            {
                if (rc != (int)d.size())
                    fail(op, "op-write", strf("short write: %d of %zu", rc, d.size()));
                if (hd->node->has_durable)
                    hd->node->since_durable.push_back(hd->node->data);
                wrote(*hd->node, off, off + d.size());
                hd->node->data.write(off, d);
                modified(*hd->node);
            }
        }
    }
    else if (K == "ftrunc")
    {
        auto* hd = hget(false);
        if (hd && (hd->acc == O_WRONLY || hd->acc == O_RDWR))
        {
            if (hit((uint64_t)op.len > v.max_file() ? EFBIG : 0, k->ftruncate(*hd, op.len)))
            {
                if (hd->node->has_durable)
                    hd->node->since_durable.push_back(hd->node->data);
                if (hd->node->data.size != (uint64_t)op.len)
                    modified(*hd->node);
                else
                    touched(*hd->node);
                hd->node->unflushed = true;
                resized(*hd->node, op.len);
                hd->node->data.truncate(op.len);
            }
        }
    }
    else if (K == "fstat")
    {
        if (auto* hd = hget(false))
        {
            struct stat st;
            int rc = k->fgetattr(*hd, &st);
            hit(0, rc);
            std::string w = check_stat(*this, *hd->node, st, hd->path);
            if (!w.empty())
                fail(op, "fstat", w);
        }
    }
    else if (K == "trunc")
    {
        NodeP n = model.find(op.p);
        int want = !n ? model.lookup_err(op.p)
            : n->kind == KD ? EISDIR
            : n->kind == KL ? EINVAL
            : (uint64_t)op.len > v.max_file() ? EFBIG
                                              : 0;
        int rc = k->truncate(op.p, op.len);
        if (hit(want, rc))
        {
            if (n->data.size != (uint64_t)op.len)
                modified(*n);
            else
                touched(*n);
            if (!n->opens)
                n->unflushed = false;
            resized(*n, op.len);
            n->data.truncate(op.len);
        }
    }
    else if (K == "mkdir")
    {
        auto m2 = model.create(op.p, KD, v.full ? op.mode & 0777 : op.mode);
        hit(m2, k->mkdir(op.p, op.mode));
    }
    else if (K == "symlink")
    {
        int want = model.create(op.p, KL, 0644, op.s);
        hit(want, k->symlink(op.s, op.p));
    }
    else if (K == "rmdir")
        hit(model.rmdir(op.p), k->rmdir(op.p));
    else if (K == "unlink")
        hit(model.unlink(op.p), k->unlink(op.p));
    else if (K == "rename")
    {
        int rc = k->rename(op.p, op.q);
        int want = op.p == op.q && model.find(op.p) ? 0 : model.rename(op.p, op.q);
        hit(want, rc);
    }
    else if (K == "link")
    {
        int rc = k->link(op.p, op.q);
        hit(model.link(op.p, op.q), rc);
    }
    else if (K == "readlink")
    {
        NodeP n = model.find(op.p);
        std::string t;
        int rc = k->readlink(op.p, t);
        if (hit(!n ? model.lookup_err(op.p) : n->kind != KL ? EINVAL : 0, rc) && t != n->target)
            fail(op,
                 "readlink",
                 strf("returns '%s', should be '%s'",
                      show(t, 80).c_str(),
                      show(n->target, 80).c_str()));
    }
    else if (K == "stat")
    {
        NodeP n = model.find(op.p);
        struct stat st;
        int rc = k->getattr(op.p, &st);
        if (!n)
        {
            if (rc >= 0)
                fail(op, "op-stat", "the object should not exist");
            if (tolerant && (cut ? cut() : sim::faults_total() != faults0))
                throw FaultHit{rc, true};
        }
        else if (hit(0, rc))
        {
            std::string w = check_stat(*this, *n, st, op.p);
            if (!w.empty())
                fail(op, "stat", w);
        }
    }
    else if (K == "readfile")
    {
        NodeP n = model.find(op.p);
        if (n && n->kind == KF && n->data.size < (1 << 22))
        {
            Handle hd;
            int rc = k->open(op.p, O_RDONLY, 0, hd);
            hit(0, rc);
            Closing cl{*k, hd};
            uint64_t off = 0;
            size_t chunk = op.len > 0 ? op.len : 1 << 17;
            if (n->data.size / chunk > 200)
                chunk = n->data.size / 200 + 1;
            for (;;)
            {
                std::string got;
                rc = k->read(hd, off, chunk, got);
                hit(0, rc);
                std::string w = check_bytes(*n, off, chunk, got);
                if (!w.empty())
                    fail(op, "read-data", w);
                if (got.empty())
                    break;
                off += got.size();
            }
            cl.armed = false;
            rc = k->close(hd);
            hit(0, rc);
            n->at_exact = false;
            if (!v.full && n->data.size == 0)
                touched(*n);
        }
    }
    else if (K == "ls")
    {
        NodeP n = model.find(op.p);
        std::vector<DirEnt> l;
        int rc = k->list(op.p, l);
        if (hit(!n ? model.lookup_err(op.p) : n->kind != KD ? ENOTDIR : 0, rc))
        {
            std::set<std::string> got, want;
            for (auto& d : l)
                if (d.name != "." && d.name != ".." && !got.insert(d.name).second)
                    fail(op, "listing", "lists '" + show(d.name, 60) + "' twice");
            for (auto& e : n->ents)
                want.insert(e.second.name);
            if (got != want)
            {
                std::string miss, extra;
                for (auto& x : want)
                    if (!got.count(x))
                        miss += " '" + show(x, 60) + "'";
                for (auto& x : got)
                    if (!want.count(x))
                        extra += " '" + show(x, 60) + "'";
                fail(op, "listing", "missing:" + miss + " extra:" + extra);
            }
        }
    }
    else if (K == "opendir")
    {
        if (!hs.count(op.h))
        {
            NodeP n = model.find(op.p);
            Handle hd;
            int rc = k->opendir(op.p, hd);
            if (hit(!n ? model.lookup_err(op.p) : n->kind != KD ? ENOTDIR : 0, rc))
            {
                hd.node = n;
                ++n->opens;
                hs[op.h] = hd;
            }
        }
    }
    else if (K == "readdirh")
    {
        auto* hd = hget(true);
        if (hd && hd->node->nlink > 0)
        {
            std::vector<DirEnt> l;
            // Known finding: the lookup table is opened by the path the directory had at opendir.
            bool stale = !v.full && v.long_threshold > 0 && !plan.ci("strict_stale_dir")
                && model.find(hd->path) != hd->node;
            int rc = k->readdir(*hd, l);
            if (stale && rc < 0)
                return sim::end_op();
            hit(0, rc);
            std::set<std::string> got, want;
            for (auto& d : l)
                if (d.name != "." && d.name != ".." && !got.insert(d.name).second)
                    fail(op, "listing", "lists '" + show(d.name, 60) + "' twice");
            for (auto& e : hd->node->ents)
                if (!stale || (int)e.second.name.size() <= v.long_threshold)
                    want.insert(e.second.name);
                else
                    got.erase(e.second.name);
            if (got != want)
                fail(op,
                     "listing",
                     strf("an open directory lists %zu names, should list %zu",
                          got.size(),
                          want.size()));
        }
    }
    else if (K == "closedir")
    {
        if (auto* hd = hget(true))
        {
            int rc = k->releasedir(*hd);
            --hd->node->opens;
            hs.erase(op.h);
            hit(0, rc);
        }
    }
    else if (K == "chmod" || K == "chown" || K == "utimens")
    {
        NodeP n = model.find(op.p);
        if (!n || n->kind != KL || K != "chmod")
        {
            int want = n ? 0 : model.lookup_err(op.p);
            int rc;
            if (K == "chmod")
            {
                rc = k->chmod(op.p, op.mode);
                if (hit(want, rc))
                    n->mode = op.mode;
            }
            else if (K == "chown")
            {
                rc = k->chown(op.p, (uint32_t)op.a, (uint32_t)op.b);
                if (hit(want, rc))
                {
                    if (op.a != -1)
                        n->uid = (uint32_t)op.a;
                    if (op.b != -1)
                        n->gid = (uint32_t)op.b;
                    n->owner_set |= op.a != -1 && op.b != -1;
                }
            }
            else
            {
                // a = atime ns, b = mtime ns; flags: 1 NULL, 2 atime NOW, 4 atime OMIT, 8 mtime
                // NOW, 16 mtime OMIT
                auto split = [](int64_t t) -> timespec
                {
                    int64_t ns = (t % 1000000000 + 1000000000) % 1000000000;
                    return {(t - ns) / 1000000000, ns};
                };
                timespec ts[2] = {split(op.a), split(op.b)};
                if (op.flags & 2)
                    ts[0].tv_nsec = UTIME_NOW;
                if (op.flags & 4)
                    ts[0].tv_nsec = UTIME_OMIT;
                if (op.flags & 8)
                    ts[1].tv_nsec = UTIME_NOW;
                if (op.flags & 16)
                    ts[1].tv_nsec = UTIME_OMIT;
                rc = k->utimens(op.p, op.flags & 1 ? nullptr : ts);
                if (hit(want, rc))
                {
                    bool mnow = op.flags & (1 | 8), anow = op.flags & (1 | 2);
                    if (mnow)
                    {
                        n->mt_exact = false;
                        n->mt_lo = t0;
                        n->mt_hi = sim::now_ns();
                    }
                    else if (!(op.flags & 16))
                    {
                        n->mt_exact = true;
                        n->mt = ts[1];
                    }
                    if (anow)
                        n->at_exact = false;
                    else if (!(op.flags & 4))
                    {
                        n->at_exact = true;
                        n->at = ts[0];
                    }
                    if (n->opens)
                        n->unflushed = true;
                }
            }
        }
    }
    else if (K == "setx")
    {
        NodeP n = model.find(op.p);
        if (v.xattr && (!n || n->kind != KL))
        {
            std::string val = gen_data(op.ds, op.len);
            int want = 0;
            if (!n)
                want = model.lookup_err(op.p);
            else if ((op.flags & XATTR_CREATE) && n->xattrs.count(op.q))
                want = EEXIST;
            else if ((op.flags & XATTR_REPLACE) && !n->xattrs.count(op.q))
                want = ENODATA;
            int rc = k->setxattr(op.p, op.q, val, op.flags);
            if (hit(want, rc))
                n->xattrs[op.q] = val;
        }
    }
    else if (K == "getx")
    {
        NodeP n = model.find(op.p);
        if (v.xattr && n && n->kind != KL)
        {
            std::string val;
            auto it = n->xattrs.find(op.q);
            int want = it == n->xattrs.end() ? ENODATA
                : op.a > 0 && (size_t)op.a < it->second.size() ? ERANGE
                                                               : 0;
            int rc = k->getxattr(op.p, op.q, val, op.a > 0 ? op.a : -1);
            if (hit(want, rc) && val != it->second)
                fail(op,
                     "getxattr",
                     strf("returns %zu bytes '%s', should be %zu bytes '%s'",
                          val.size(),
                          show(val).c_str(),
                          it->second.size(),
                          show(it->second).c_str()));
        }
    }
    else if (K == "listx")
    {
        NodeP n = model.find(op.p);
        if (v.xattr && n && n->kind != KL)
        {
            std::set<std::string> names, want;
            size_t need = 0;
            for (auto& x : n->xattrs)
            {
                want.insert(x.first);
                need += x.first.size() + 1;
            }
            int rc = k->listxattr(op.p, names, op.a > 0 ? op.a : -1);
            if (op.a > 0 && (size_t)op.a < need)
                hit(ERANGE, rc);
            else if (hit(0, rc) && names != want)
                fail(op,
                     "listxattr",
                     strf("lists %zu attributes, should list %zu", names.size(), want.size()));
        }
    }
    else if (K == "remx")
    {
        NodeP n = model.find(op.p);
        if (v.xattr && n && n->kind != KL)
        {
            int rc = k->removexattr(op.p, op.q);
            if (hit(n->xattrs.count(op.q) ? 0 : ENODATA, rc))
                n->xattrs.erase(op.q);
        }
    }
    else if (K == "statfs")
    {
        struct statvfs s;
        hit(0, k->statfs(&s));
    }
    else if (K == "tick")
        sim::advance_ns(op.a);
    else if (K == "remount")
    {
        unmount();
        ++sim::R->remounts;
        mount();
    }
    else if (K == "verify")
        verify_all("mid-run check");
    else
        sim::harness_error("unknown op " + K);
    sim::end_op();
}
}    // namespace h
