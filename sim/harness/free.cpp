// Requests that nothing serialises: other front ends than the one of Linux (and callers of the library)
// send requests for one directory at the same time. Only what needs no model is judged: nothing blocks
// for ever, only errors that a race explains are returned, and names are neither lost nor made up.
#include "free.h"

#include <cerrno>
#include <fcntl.h>

namespace h
{
namespace
{
struct Free
{
    Engine& e;
    long delta = 0;    // names that were added
    explicit Free(Engine& en) : e(en) {}

    static std::string text(const Op& op) { return gen_data(op.ds, op.len); }
    int listing(const std::string& dir, std::vector<std::string>& l)
    {
        auto& m = *e.mnt;
        fuse_file_info fi{};
        e.k->ctx();
        if (m.fo.opendir)
            if (int rc = m.fo.opendir(dir.c_str(), &fi))
                return rc;
        auto fill = [](void* b, const char* n, const struct stat*, off_t)
        {
            if (strcmp(n, ".") && strcmp(n, ".."))
                static_cast<std::vector<std::string>*>(b)->push_back(n);
            return 0;
        };
        int rc = m.fo.readdir(dir.c_str(), &l, fill, 0, &fi);
        if (m.fo.releasedir)
            m.fo.releasedir(dir.c_str(), &fi);
        return rc;
    }
    void no_twins(const Op& op, const std::string& dir, const std::vector<std::string>& l)
    {
        std::set<std::string> s(l.begin(), l.end());
        if (s.size() != l.size())
            e.fail(op, "free-twin", "a listing of " + dir + " shows a name twice");
    }
    void one(const Op& op)
    {
        auto& fo = e.mnt->fo;
        const char *p = op.p.c_str(), *q = op.q.c_str();
        std::set<int> ok = {0, -ENOENT};
        int rc = 0;
        e.k->ctx();
        ++sim::R->ops;
        if (op.k == "mkfile")
        {
            ok.insert(-EEXIST);
            fuse_file_info fi{};
            fi.flags = O_CREAT | O_EXCL | O_RDWR;
            rc = fo.create(p, S_IFREG | op.mode, &fi);
            if (rc == 0)
            {
                ++delta;
                auto t = text(op);
                int w = t.empty() ? 0 : fo.write(p, t.data(), t.size(), 0, &fi);
                if (w != (int)t.size())
                    e.fail(op, "free-error", strf("writing a new file returns %d", w));
                fo.flush(p, &fi);
                fo.release(p, &fi);
            }
        }
        else if (op.k == "unlink")
        {
            rc = fo.unlink(p);
            delta -= rc == 0;
        }
        else if (op.k == "link")
        {
            rc = fo.link(p, q);
            delta += rc == 0;
        }
        else if (op.k == "rename")
            rc = fo.rename(p, q);
        else if (op.k == "chmod")
            rc = fo.chmod(p, op.mode);
        else if (op.k == "stat")
        {
            struct stat st;
            rc = fo.getattr(p, &st);
            if (rc == 0 && !S_ISREG(st.st_mode))
                e.fail(op, "free-kind", op.p + " is no file");
        }
        else if (op.k == "trunc")
            rc = fo.truncate(p, (off_t)op.len);
        else if (op.k == "ls")
        {
            std::vector<std::string> l;
            rc = listing(op.p, l);
            // A name that moves while the directory is read may be seen twice, or not at all.
        }
        else if (op.k == "open")
        {
            fuse_file_info fi{};
            fi.flags = O_RDWR;
            rc = fo.open(p, &fi);
            if (rc == 0)
            {
                auto t = text(op);
                int w = t.empty() ? 0 : fo.write(p, t.data(), t.size(), (off_t)op.off, &fi);
                std::string buf(64, 0);
                int g = fo.read(p, buf.data(), buf.size(), (off_t)op.off, &fi);
                if (w != (int)t.size() || g < 0)
                    e.fail(op, "free-error", strf("writing returns %d, reading %d", w, g));
                fo.flush(p, &fi);
                fo.release(p, &fi);
            }
        }
        sim::trace("op %d %s rc=%d", op.id, op.k.c_str(), rc);
        sim::R->ops_failed += rc < 0;
        if (!ok.count(rc))
            e.fail(op, "free-error", strf("%s returns %d", op.k.c_str(), rc));
    }
    // Takes what there is now as the state of the model, after checking that it makes sense.
    size_t adopt(const Op& op, const std::vector<std::string>& dirs, const char* when)
    {
        size_t names = 0;
        std::map<uint64_t, std::pair<std::string, int>> inodes;
        std::map<uint64_t, int> nlinks;
        for (auto& d : dirs)
        {
            std::vector<std::string> l, old;
            int rc = listing(d, l);
            if (rc < 0)
                e.fail(op, "free-list", strf("%s cannot be listed %s (%d)", d.c_str(), when, rc));
            no_twins(op, d, l);
            auto at = [&](const std::string& n) { return (d == "/" ? "" : d) + "/" + n; };
            e.model.walk(
                [&](const std::string& p, const NodeP& n)
                {
                    if (n->kind == KF && parent_of(p) == d)
                        old.push_back(p);
                });
            for (auto& p : old)
                e.model.unlink(p);
            for (auto& n : l)
            {
                struct stat st;
                e.k->ctx();
                rc = e.mnt->fo.getattr(at(n).c_str(), &st);
                if (rc < 0)
                    e.fail(op, "free-name", strf("%s is listed, but getattr fails with %d %s", at(n).c_str(), rc, when));
                if (S_ISDIR(st.st_mode))
                    continue;
                ++names;
                nlinks[st.st_ino] = (int)st.st_nlink;
                auto [it, fresh] = inodes.emplace(st.st_ino, std::make_pair(at(n), 0));
                ++it->second.second;
                if (!fresh)
                {
                    e.model.link(it->second.first, at(n));
                    continue;
                }
                e.model.create(at(n), KF, st.st_mode & 07777);
                auto f = e.model.find(at(n));
                Handle hd;
                rc = e.k->open(at(n), O_RDONLY, 0, hd);
                if (rc < 0)
                    e.fail(op, "free-open", strf("%s cannot be opened %s (%d)", at(n).c_str(), when, rc));
                std::string got;
                for (uint64_t o = 0; o < (uint64_t)st.st_size; o += got.size())
                {
                    rc = e.k->read(hd, o, 4096, got);
                    if (rc <= 0)
                        e.fail(op, "free-read", strf("%s cannot be read %s (%d)", at(n).c_str(), when, rc));
                    f->data.write(o, got);
                }
                e.k->close(hd);
            }
        }
        for (auto& [i, x] : inodes)
            if (nlinks[i] != x.second)
                e.fail(op,
                       "free-links",
                       strf("%s has %d names and a link count of %d %s",
                            x.first.c_str(),
                            x.second,
                            nlinks[i],
                            when));
        return names;
    }
};
}    // namespace

void run_free(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    std::map<int, std::vector<const Op*>> by;
    long before = 0;
    Op last;
    for (auto& op : p.ops)
        if (op.thr)
            by[op.thr].push_back(&op);
        else
            e.exec(op);
    std::vector<std::string> dirs;
    e.model.walk(
        [&](const std::string& q, const NodeP& n)
        {
            if (n->kind == KD)
                dirs.push_back(q);
            else
                ++before;
        });
    Free f(e);
    std::vector<int> tids;
    for (auto& [t, v] : by)
        tids.push_back(sim::spawn(
            [&f, list = &v]
            {
                for (auto o : *list)
                {
                    sim::begin_op(o->id);
                    f.one(*o);
                    sim::end_op();
                }
            }));
    for (int t : tids)
        sim::join(t);
    sim::probe("requests that nothing serialises");
    sim::begin_op(-3);
    last.id = -3;
    last.k = "all";
    auto check = [&](const char* when)
    {
        long n = (long)f.adopt(last, dirs, when);
        if (n != before + f.delta)
            e.fail(last,
                   "free-count",
                   strf("there are %ld names %s; there were %ld, and %ld more were created than removed",
                        n,
                        when,
                        before,
                        f.delta));
    };
    check("at the end");
    e.unmount();
    e.mount();
    check("after a remount");
    e.unmount();
    e.check_storage();
    sim::end_op();
}

Plan gen_free(const char* id, uint64_t seed, bool thorough)
{
    Gen g(id, seed);
    bool full = g.r.chance(2, 3);
    g.config(full);
    g.p.set("free", 1);
    g.p.set("gensched", 1);
    g.p.set("preempt", g.r.oneof({10, 30, 80, 150, 300}));
    g.p.set("wprio", g.r.below(2));
    if (g.r.chance(1, 3))
        g.p.set("prio", g.r.oneof({1, 10, 50, 200}));
    if (full && g.r.chance(1, 2))
        g.p.set("few_ids", g.r.oneof({1, 3}));
    g.names = {"a", "b"};
    g.finish_config();
    std::vector<std::string> dirs = {"/"}, files;
    // many moves between directories at once
    bool moves = g.r.chance(1, 3);
    int nd = (int)g.r.range(moves ? 1 : 0, 2);
    for (int i = 0; i < nd; ++i)
    {
        Op& o = g.p.add("mkdir");
        o.p = strf("/d%d", i);
        o.mode = 0755;
        dirs.push_back(o.p);
    }
    auto in = [&](const std::string& d, const std::string& n) { return (d == "/" ? "" : d) + "/" + n; };
    std::string pad = !full && g.p.ci("longname") && g.r.chance(1, 2) ? std::string(150, 'L') : "";
    for (auto& d : dirs)
        for (int i = 0; i < 3; ++i)
            files.push_back(in(d, strf("%c", 'x' + i) + pad));
    auto hot = files;
    while (hot.size() > 2 && g.r.chance(1, 2))
        hot.erase(hot.begin() + g.r.below(hot.size()));
    for (auto& f : files)
        if (g.r.chance(1, 2))
        {
            Op& o = g.p.add("mkfile");
            o.p = f;
            o.mode = 0644;
        }
    int nt = (int)g.r.range(2, 4), fresh = 0;
    for (int t = 1; t <= nt; ++t)
    {
        int n = (int)g.r.range(2, thorough ? 10 : 6);
        for (int i = 0; i < n; ++i)
        {
            static const char* kinds[] = {"mkfile", "mkfile", "mkfile", "unlink", "unlink", "rename", "rename", "link", "link", "stat", "chmod", "ls", "open", "open", "trunc"};
            Op& o = g.p.add(kinds[g.r.below(std::size(kinds))]);
            o.thr = t;
            o.p = g.r.pick(hot);
            o.mode = g.r.oneof({0644, 0600, 0755});
            // nothing that a rename could replace
            if (o.k == "mkfile" && base_of(o.p)[0] == 'n')
                o.k = "stat";
            if (moves && g.r.chance(3, 4))
                o.k = g.r.chance(3, 4) ? "rename" : "link";
            if (o.k == "ls")
                o.p = g.r.pick(dirs);
            if (o.k == "rename" || o.k == "link")
                o.q = in(g.r.pick(dirs), strf("n%d", fresh++) + pad);
            if (o.k == "mkfile" || o.k == "open")
            {
                o.len = g.r.oneof({0, 1, 20, 300});
                o.ds = g.r.next() | 1;
                o.off = g.r.oneof({0, 10, 500});
            }
            if (o.k == "trunc")
                o.len = g.r.oneof({0, 5, 700});
            // what was made just now is taken apart soon
            if (!o.q.empty() && g.r.chance(1, 2))
                hot.push_back(o.q);
        }
    }
    return g.p;
}
}    // namespace h
