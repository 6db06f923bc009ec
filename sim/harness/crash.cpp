// Crashes and power loss: C01 (lite, process death), C02 (full, process death), C03 (power loss).
#include "crash.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>

namespace h
{
static void forget_handles(Model& m)
{
    m.walk(
        [](const std::string&, const NodeP& n)
        {
            n->opens = 0;
            n->unflushed = false;
        });
}
static bool in_ranges(const Node& n, uint64_t lo, uint64_t hi)
{
    for (auto& r : n.dirty)
        if (lo < r.second && r.first < hi)
            return true;
    return false;
}
static const sim::CrashSpec* spec_for(const Plan& p, const Op& op)
{
    for (auto& c : p.crashes)
        if (c.op == op.id)
            return &c;
    return nullptr;
}
// Runs one operation with a crash in it. Afterwards the simulated disk is the one a restarted
// process finds; e.model is the state after the operation and `pre` the one before it.
struct Crashed
{
    Model pre;
    std::map<Node*, NodeP> remap;    // node of e.model -> the same node in pre
    Targets tg;
    std::set<Node*> open_after;      // objects held open when the operation had completed
    bool interrupted = false;        // otherwise the operation had completed
    bool power = false;
};
static void crash_in_op(Engine& e, const Op& op, const sim::CrashSpec& cs, Crashed& c,
                        const std::function<void()>& before_install)
{
    c.pre = e.model.clone(&c.remap);
    for (auto& [i, hd] : e.hs)
        if (hd.node && !c.remap.count(hd.node.get()))
            c.remap[hd.node.get()] = std::make_shared<Node>(*hd.node);
    c.tg = op_targets(e, op);
    e.exec(op);
    c.interrupted = sim::crash_fired();
    for (auto& [i, hd] : e.hs)
        if (hd.node)
            c.open_after.insert(hd.node.get());
    if (!c.interrupted)
    {
        sim::begin_op(op.id);
        sim::force_crash_now(cs);
        sim::end_op();
    }
    sim::begin_op(-2);
    int at = 0;
    auto image = sim::take_crash_image(&c.power, &at);
    sim::probe(c.interrupted ? "crash-inside-an-op" : "crash-between-ops");
    e.unmount();
    if (before_install)
        before_install();
    sim::install_disk(image);
    sim::end_op();
}

// Checks the files marked fuzzy (those an interrupted or failed operation was writing) block by block
// and makes the model what was found. `before`: the same object in the other candidate state.
void settle(Engine& e, const Op& op, Model& m, const std::map<Node*, Node*>& before, bool post,
            bool damage_ok, const char* when)
{
    std::vector<std::pair<std::string, NodeP>> todo;
    std::set<Node*> seen;
    m.walk(
        [&](const std::string& path, const NodeP& n)
        {
            if (n->fuzzy && seen.insert(n.get()).second)
                todo.push_back({path, n});
        });
    for (auto& [path, n] : todo)
    {
        auto at = before.find(n.get());
        Node* other = at == before.end() ? nullptr : at->second;
        // the ranges were recorded on the executed model
        const std::vector<std::pair<uint64_t, uint64_t>>& rg
            = post || !other ? n->dirty : other->dirty;
        n->fuzzy = false;
        bool broken_ok = n->allow_broken;
        n->allow_broken = false;
        if (other)
            n->alts.push_back(other->data);
        else if (n->data.size)
            n->alts.push_back(Blob());
        Node probe = *n;
        probe.dirty = rg;
        uint64_t lo = n->data.size, hi = n->data.size;
        for (auto& a : n->alts)
            lo = std::min(lo, a.size), hi = std::max(hi, a.size);
        n->alts.clear();
        struct stat st;
        Handle hd;
        int rc = e.k->getattr(path, &st);
        if (rc >= 0 && ((uint64_t)st.st_size < lo || (uint64_t)st.st_size > hi))
            e.fail(op,
                   "file-size",
                   strf("%s has size %lld %s, but it only ever had sizes %llu to %llu",
                        show(path, 60).c_str(),
                        (long long)st.st_size,
                        when,
                        (unsigned long long)lo,
                        (unsigned long long)hi));
        int orc = rc < 0 ? rc : e.k->open(path, O_RDONLY, 0, hd);
        if (orc < 0)
        {
            if (!broken_ok)
                e.fail(op,
                       "file-open",
                       strf("%s cannot be opened %s (errno %d)",
                            show(path, 60).c_str(),
                            when,
                            -orc));
            sim::probe("unusable new file");
            rc = e.k->unlink(path);
            if (rc == -EINVAL)
                for (auto& f : e.plan.faults)
                    if (f.op == op.id && f.cls == sim::C_TRUNC && f.err > 0)
                    {
                        // the header is torn and the truncation that should have removed it
                        // failed too: such a file has no attributes, so the kernel finds none
                        sim::probe("torn header that could not be removed");
                        e.k->ctx();
                        rc = e.k->m.fo.unlink(path.c_str());
                        break;
                    }
            if (rc < 0)
                e.fail(op,
                       "file-open",
                       strf("%s cannot be removed %s (errno %d)",
                            show(path, 60).c_str(),
                            when,
                            -rc));
            m.unlink(path);
            continue;
        }
        Blob seen_data;
        seen_data.truncate(st.st_size);
        bool damaged = false;
        uint64_t B = e.v.block;
        for (uint64_t o = 0; o < (uint64_t)st.st_size; o += B)
        {
            std::string got;
            rc = e.k->read(hd, o, B, got);
            // with padding, stored blocks are not aligned with these
            uint64_t slack = e.v.pad ? B : 0;
            bool touched = in_ranges(probe, o - std::min(o, slack), o + B + slack) || !other;
            if (rc < 0)
            {
                if (!touched)
                    e.fail(op,
                           "file-read",
                           strf("%s: reading block %llu, which was not being written, fails "
                                "with %d %s",
                                show(path, 60).c_str(),
                                (unsigned long long)(o / B),
                                rc,
                                when));
                if (!damage_ok)
                    e.fail(op,
                           "block-lost",
                           strf("%s: block %llu, which was being written, cannot be read %s (%d)",
                                show(path, 60).c_str(),
                                (unsigned long long)(o / B),
                                when,
                                rc));
                damaged = true;
                sim::probe("torn block detected");
                continue;
            }
            Node one = probe;
            if (!touched)
                one.alts.clear();
            std::string w = check_bytes(one, o, std::min<uint64_t>(B, st.st_size - o), got);
            if (!w.empty() && !touched && one.data.size < o + B)
                w = "";    // end of the file moved inside this block
            if (!w.empty())
                e.fail(op, "file-data", show(path, 60) + std::string(" ") + when + ": " + w);
            seen_data.write(o, got);
        }
        e.k->close(hd);
        if (damaged)
        {
            rc = e.k->truncate(path, 0);
            if (rc < 0)
            {
                // with padding, the damaged block may be the one that holds the padding
                sim::probe("file damaged beyond truncation");
                std::vector<std::string> names;
                m.walk(
                    [&](const std::string& q, const NodeP& x)
                    {
                        if (x == n)
                            names.push_back(q);
                    });
                for (auto it = e.hs.begin(); it != e.hs.end();)
                    if (it->second.node == n)
                    {
                        e.k->close(it->second);
                        it = e.hs.erase(it);
                    }
                    else
                        ++it;
                for (auto& q : names)
                {
                    rc = e.k->unlink(q);
                    if (rc < 0)
                        e.fail(op,
                               "file-data",
                               strf("%s cannot be removed %s (errno %d)",
                                    show(q, 60).c_str(),
                                    when,
                                    -rc));
                    m.unlink(q);
                }
                continue;
            }
            seen_data = Blob();
        }
        n->data = seen_data;
    }
}

// ------------------------------------------------------------------ C01
static void run_c01(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    for (auto& op : p.ops)
    {
        auto* cs = spec_for(p, op);
        if (!cs)
        {
            e.exec(op);
            continue;
        }
        e.model.walk([](const std::string&, const NodeP& n) { n->dirty.clear(); });
        for (auto& [i, hd] : e.hs)
            if (hd.node)
                hd.node->dirty.clear();
        Crashed c;
        crash_in_op(e, op, *cs, c, nullptr);
        sim::begin_op(-3);
        ++sim::R->remounts;
        e.mount();
        forget_handles(e.model);
        forget_handles(c.pre);
        std::vector<NodeP> fuzzy;    // nodes of e.model
        if (c.interrupted)
        {
            std::map<Node*, NodeP> shared;
            e.model.walk([&](const std::string&, const NodeP& n) { shared[n.get()] = n; });
            for (auto& [raw, n] : shared)
            {
                auto it = c.remap.find(raw);
                if (n->kind != KF)
                    continue;
                bool isnew = it == c.remap.end();
                if (!isnew && !c.tg.nodes.count(raw))
                    continue;
                n->fuzzy = true;
                n->mt_exact = n->at_exact = false;
                n->mt_lo = -1;
                n->allow_broken = isnew || it->second->data.size == 0;
                if (!isnew)
                {
                    auto& o = *it->second;
                    o.fuzzy = true;
                    o.mt_exact = o.at_exact = false;
                    o.mt_lo = -1;
                    o.allow_broken = n->allow_broken;
                }
            }
        }
        // Entries that came and went, and the recovery of a data base, set the times of directories.
        for (auto* m : {&e.model, &c.pre})
            m->walk([](const std::string&, const NodeP& n) { n->mt_exact &= n->kind != KD; });
        std::string bad = e.compare_tree(e.model, true), bad0;
        bool post = bad.empty();
        if (!post)
        {
            bad0 = c.interrupted ? e.compare_tree(c.pre, true) : "";
            if (!c.interrupted || !bad0.empty())
                e.fail(op,
                       c.interrupted ? "crash-torn" : "crash-lost",
                       strf("after a crash %s: %s%s%s",
                            c.interrupted ? "inside this operation" : "right after this operation",
                            bad.c_str(),
                            c.interrupted ? "\n  and compared with the state before it: " : "",
                            bad0.c_str()));
        }
        sim::probe(!c.interrupted ? "state: completed" : post ? "state: after" : "state: before");
        // contents of the files the operation was changing
        Model& m = post ? e.model : c.pre;
        std::map<Node*, Node*> before;    // node of m -> the node of the other candidate
        for (auto& [raw, n] : c.remap)
            before[post ? raw : n.get()] = post ? n.get() : raw;
        settle(e, op, m, before, post, true, "after the crash");
        if (!post)
            e.model = c.pre;
        e.model.walk([](const std::string&, const NodeP& n) { n->dirty.clear(); });
        sim::end_op();
    }
    sim::begin_op(-1);
    e.verify_all("at the end");
    e.unmount();
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    sim::end_op();
}

static bool mutating(const std::string& k)
{
    static const std::set<std::string> m
        = {"open", "mkfile", "write", "append", "ftrunc", "trunc", "mkdir", "symlink", "rmdir",
           "unlink", "rename", "link", "chmod", "chown", "utimens", "setx", "remx", "close",
           "flush", "fsync", "remount", "readfile", "closedir"};
    return m.count(k) != 0;
}
void add_crashes(Gen& g, int n, bool power, size_t from)
{
    std::vector<int> c;
    for (size_t i = from; i < g.p.ops.size(); ++i)
        if (mutating(g.p.ops[i].k))
            c.push_back(g.p.ops[i].id);
    for (int i = 0; i < n && !c.empty(); ++i)
    {
        sim::CrashSpec s;
        size_t x = g.r.below(c.size());
        s.op = c[x];
        c.erase(c.begin() + x);
        s.power = power;
        switch (g.r.below(6))
        {
        case 0:
            s.nth = 1000000;    // right after the operation
            break;
        case 1:
            s.nth = (int)g.r.range(1, 40);
            break;
        case 2:
            s.nth = (int)g.r.range(1, 12);
            break;
        default:
            s.nth = g.r.oneof({1, 1, 1, 2, 2, 3, 4});
        }
        s.torn = -1;
        if (!power && g.r.chance(1, 3))
            s.torn = g.r.chance(1, 2) ? (int64_t)g.r.below(5000) : (int64_t)g.r.below(30000);
        s.seed = g.r.next() >> 8;
        g.p.crashes.push_back(s);
    }
    std::sort(g.p.crashes.begin(),
              g.p.crashes.end(),
              [](auto& a, auto& b) { return a.op < b.op; });
}
static Plan gen_c01(uint64_t seed, bool thorough)
{
    Gen g("C01", seed);
    g.config(0);
    g.p.set("verify", 1);
    if (g.r.chance(1, 2))
    {
        g.p.set("plain", (int64_t)0);
        g.p.set("longname", g.r.oneof({20, 128}));
    }
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.max_size = g.r.oneof<uint64_t>({2000, 20000, 60000});
    g.names.resize(g.r.range(3, 6));
    if (!g.v.plain && g.v.long_threshold > 0)
        for (int i = 0; i < 4; ++i)
        {
            std::string s = sim::strf("L%d", i);
            size_t len = g.r.range(g.v.long_threshold, 240);
            while (s.size() < len)
                s.push_back((char)('a' + g.r.below(26)));
            g.names.push_back(s);
        }
    W w = {{"create", 6}, {"mkfile", 8}, {"open", 8}, {"close", 3}, {"write", 14}, {"append", 5},
           {"ftrunc", 6}, {"trunc", 5}, {"mkdir", 7}, {"rmdir", 4}, {"unlink", 5}, {"rename", 12},
           {"link", 3}, {"symlink", 3}, {"chmod", 2}, {"chown", 1}, {"utimens", 2}, {"setx", 3},
           {"remx", 1}, {"readfile", 1}};
    int crashes = (int)g.r.range(1, thorough ? 5 : 3);
    int n = (int)g.r.range(6, thorough ? 60 : 30);
    // handles die in a crash, so the history is made of segments
    for (int i = 0; i < crashes; ++i)
    {
        size_t from = g.p.ops.size();
        g.fill(w, std::max(3, n / crashes));
        size_t a = from + (g.p.ops.size() - from) / 2;
        size_t before = g.p.crashes.size();
        add_crashes(g, 1, false, a);
        if (g.p.crashes.size() > before)
        {
            // drop what follows the crash in this segment from the generator's handles
            for (auto& [i2, x] : g.hs)
                --x.first->opens;
            g.hs.clear();
        }
    }
    return g.p;
}

// ------------------------------------------------------------------ C02 and C03 (full format)
static std::map<Node*, std::string> ids_of(Engine& e, Model& m)
{
    std::map<Node*, std::string> ids;
    Fmt f(e.v, *sim::disk);
    std::function<void(const NodeP&, const std::string&)> rec
        = [&](const NodeP& n, const std::string& id)
    {
        if (!ids.emplace(n.get(), id).second || n->kind != KD)
            return;
        DFile d = f.full_file(id);
        std::vector<DEnt> l;
        std::string w = f.full_dir(d, l);
        if (!w.empty())
            sim::harness_error("the uninterrupted repository does not decode: " + w);
        for (auto& [c, ent] : n->ents)
            for (auto& x : l)
                if (m.canon(x.name) == c)
                    rec(ent.n, x.id);
    };
    rec(m.root, std::string(32, '\0'));
    return ids;
}
// Checks the stored blocks of one file against its model; `any` = every block may have changed.
static void check_blocks(Engine& e, const Op& op, const std::string& what, const Node& n,
                         const DFile& d, uint64_t lo, uint64_t hi)
{
    uint64_t B = e.v.block;
    if (d.size < lo || d.size > hi)
        e.fail(op,
               "crash-size",
               strf("%s has size %llu, but should have %llu to %llu",
                    what.c_str(),
                    (unsigned long long)d.size,
                    (unsigned long long)lo,
                    (unsigned long long)hi));
    for (uint64_t i = 0; i < d.nblocks; ++i)
    {
        // file offsets of this block
        uint64_t a = i * B < d.padding ? 0 : i * B - d.padding;
        uint64_t z = (i + 1) * B < d.padding ? 0 : (i + 1) * B - d.padding;
        if (z == 0 || in_ranges(n, a, z))
            continue;
        if (auto it = d.blocks.find(i); it != d.blocks.end() && it->second == 2)
            e.fail(op,
                   "crash-read",
                   strf("%s: block %zu, which was not being written, is damaged", what.c_str(), (size_t)i));
        std::string got = d.raw.read(d.padding + a, z - a);
        std::string w = check_bytes(n, a, z - a, got);
        if (!w.empty() && n.data.size >= z)
            e.fail(op, "crash-data", what + ": " + w);
    }
}
static void note_unflushed(Engine& e, const Op& op, const Targets& t)
{
    static const std::set<std::string> pure
        = {"flush", "fsync", "close", "stat", "fstat", "readlink", "tick", "statfs", "remount"};
    if (pure.count(op.k))
        return;
    for (auto* n : t.nodes)
        if (n->opens > 0)
            n->unflushed = true;
    // a file created with a handle left open has not been flushed
    auto it = e.hs.find(op.h);
    if (op.k == "open" && it != e.hs.end() && it->second.node)
        it->second.node->unflushed = true;
}
static void run_c02(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    for (auto& op : p.ops)
    {
        auto* cs = spec_for(p, op);
        if (!cs)
        {
            // nodes must outlive the operation
            Model keep = e.model;
            std::map<Node*, NodeP> alive;
            e.model.walk([&](const std::string&, const NodeP& n) { alive[n.get()] = n; });
            auto t = op_targets(e, op);
            e.exec(op);
            note_unflushed(e, op, t);
            continue;
        }
        auto clear = [](const std::string&, const NodeP& n) { n->dirty.clear(); };
        e.model.walk(clear);
        std::set<Node*> unclean;
        std::map<Node*, NodeP> alive;
        e.model.walk(
            [&](const std::string&, const NodeP& n)
            {
                alive[n.get()] = n;
                if (n->unflushed || (n->kind == KD && n->opens > 0))
                    unclean.insert(n.get());
            });
        Crashed c;
        std::map<Node*, std::string> ids;
        crash_in_op(e, op, *cs, c, [&] { ids = ids_of(e, e.model); });
        sim::begin_op(-3);
        if (c.interrupted)
        {
            unclean.insert(c.tg.nodes.begin(), c.tg.nodes.end());
            unclean.insert(c.tg.parents.begin(), c.tg.parents.end());
        }
        else if (op.k != "close" && op.k != "closedir" && op.k != "flush" && op.k != "fsync"
                 && op.k != "remount")
        {
            // completed, but an object held open is written back later
            for (auto* n : c.tg.nodes)
                if (c.open_after.count(n))
                    unclean.insert(n);
            for (auto* n : c.tg.parents)
                if (c.open_after.count(n))
                    unclean.insert(n);
        }
        else if (op.k != "remount")
            unclean.erase(c.tg.handle);
        if (op.k == "remount" && !c.interrupted)
            unclean.clear();
        Fmt f(e.v, *sim::disk);
        Model& m = e.model;
        std::set<Node*> in_pre, seen;
        c.pre.walk([&](const std::string&, const NodeP& n) { in_pre.insert(n.get()); });
        size_t checked = 0;
        std::map<Node*, bool> ok;
        m.walk(
            [&](const std::string& path, const NodeP& n)
            {
                if (!seen.insert(n.get()).second)
                    return;
                auto it = c.remap.find(n.get());
                bool isnew = it == c.remap.end() || !in_pre.count(it->second.get());
                bool clean = !unclean.count(n.get()) && (!isnew || !c.interrupted)
                    && !(isnew && c.open_after.count(n.get()));
                if (isnew && !clean)
                    return;
                auto id = ids.find(n.get());
                if (id == ids.end())
                    sim::harness_error("no id for " + show(path, 60));
                DFile d = f.full_file(id->second);
                ++checked;
                std::string what = show(path, 60)
                    + (clean ? " (at rest)" : " (in use)") + " after the crash";
                if (!d.exists)
                    e.fail(op, "crash-lost", what + " is not stored any more");
                if (clean && (!d.mac_ok || !d.header_ok || !d.xattr_err.empty() || !d.err.empty()))
                    e.fail(op,
                           "crash-damaged",
                           strf("%s is damaged: %s%s%s %s",
                                what.c_str(),
                                d.mac_ok ? "" : "authentication code wrong; ",
                                d.header_ok ? "" : "header wrong; ",
                                d.err.c_str(),
                                d.xattr_err.c_str()));
                if (clean && d.nlink != (uint32_t)n->nlink && n->kind == KF)
                    e.fail(op,
                           "crash-damaged",
                           strf("%s has link count %u, should have %d", what.c_str(), d.nlink, n->nlink));
                if (clean && n->kind != KL && n->id != 1 && (d.mode & 0777) != (n->mode & 0777))
                    e.fail(op, "crash-damaged", what + strf(" has mode %o", d.mode));
                if (n->kind != KL && clean && p.ci("check_xattr") && d.xattrs != n->xattrs)
                    e.fail(op, "crash-damaged", what + " has other extended attributes");
                if (n->kind == KF)
                {
                    if (!d.header_ok && !clean && e.v.pad)
                        return;    // the padding is unknown
                    uint64_t lo = n->data.size, hi = lo;
                    if (c.interrupted && it != c.remap.end())
                        lo = std::min(lo, it->second->data.size),
                        hi = std::max(hi, it->second->data.size);
                    Node probe = *n;
                    if (!c.interrupted)
                        probe.dirty.clear();
                    check_blocks(e, op, what, probe, d, lo, hi);
                }
                if (n->kind == KL && clean && d.content() != n->target)
                    e.fail(op, "crash-data", what + " points elsewhere");
                if (n->kind == KD && clean)
                {
                    std::vector<DEnt> l;
                    std::string w = f.full_dir(d, l);
                    if (!w.empty())
                        e.fail(op, "crash-dir", what + ": " + w);
                    std::set<std::string> got, want;
                    for (auto& x : l)
                        got.insert(x.name);
                    for (auto& x : n->ents)
                        want.insert(x.second.name);
                    if (got != want)
                        e.fail(op,
                               "crash-dir",
                               strf("%s lists %zu entries, should list %zu",
                                    what.c_str(),
                                    got.size(),
                                    want.size()));
                }
                ok[n.get()] = clean;
            });
        if (checked)
            sim::probe("objects decoded after the crash");
        // what is reachable through clean directories works as before
        if (ok[m.root.get()])
        {
            e.hs.clear();
            e.mount();
            sim::probe("mounted after the crash");
            forget_handles(m);
            std::function<void(const std::string&, const NodeP&)> rec
                = [&](const std::string& path, const NodeP& n)
            {
                if (!ok[n.get()])
                    return;
                std::string pp = path.empty() ? "/" : path;
                struct stat st;
                int rc = e.k->getattr(pp, &st);
                if (rc < 0)
                    e.fail(op,
                           "crash-mount",
                           strf("getattr(%s) fails with %d after the crash", show(pp, 60).c_str(), rc));
                if (n->kind == KF)
                {
                    Blob b;
                    rc = e.k->read_all(pp, b);
                    if (rc < 0 || !(b == n->data))
                        e.fail(op,
                               "crash-mount",
                               strf("%s reads differently after the crash (%d)",
                                    show(pp, 60).c_str(),
                                    rc));
                }
                if (n->kind == KD)
                {
                    std::vector<DirEnt> l;
                    rc = e.k->list(pp, l);
                    std::set<std::string> got, want;
                    for (auto& x : l)
                        if (x.name != "." && x.name != "..")
                            got.insert(x.name);
                    for (auto& x : n->ents)
                        want.insert(x.second.name);
                    if (rc < 0 || got != want)
                        e.fail(op,
                               "crash-mount",
                               strf("%s lists differently after the crash (%d)",
                                    show(pp, 60).c_str(),
                                    rc));
                    for (auto& x : n->ents)
                        rec(path + "/" + x.second.name, x.second.n);
                }
            };
            rec("", m.root);
            e.unmount();
        }
        sim::end_op();
        return;
    }
}
static Plan gen_c02(uint64_t seed, bool thorough)
{
    Gen g("C02", seed);
    g.config(1);
    g.p.set("verify", 1);
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.max_size = g.r.oneof<uint64_t>({2000, 20000});
    g.names.resize(g.r.range(3, 8));
    if (g.r.chance(1, 4))
        for (int i = 0; i < 40; ++i)
            g.names.push_back(sim::strf("entry-%d", i));
    W w = {{"create", 6}, {"mkfile", 14}, {"open", 8}, {"close", 5}, {"write", 14}, {"append", 4},
           {"ftrunc", 5}, {"trunc", 5}, {"mkdir", 7}, {"rmdir", 2}, {"unlink", 4}, {"rename", 6},
           {"link", 4}, {"symlink", 2}, {"chmod", 3}, {"chown", 2}, {"utimens", 3}, {"setx", 4},
           {"remx", 1}, {"readfile", 2}, {"flush", 2}, {"fsync", 2}, {"remount", 2}, {"ls", 1}};
    g.fill(w, (int)g.r.range(6, thorough ? 100 : 40));
    add_crashes(g, 1, false, g.p.ops.size() / 3);
    return g.p;
}


// ------------------------------------------------------------------ C03
// What was acknowledged by fsync, per object.
struct Acked
{
    std::set<std::string> paths;    // every name the object had since then
    uint64_t lo = 0, hi = 0;        // sizes it had since then
    bool touched = false;           // any operation concerned it since then
    NodeP keep;
};
static void run_c03(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    sim::journal_enable(true);
    std::map<Node*, Acked> acked;
    static const std::set<std::string> harmless
        = {"stat", "fstat", "flush", "close", "statfs", "tick", "readlink", "opendir", "closedir"};
    auto note = [&](Engine& en, const Op& op, const Targets& t, bool interrupted)
    {
        std::map<Node*, std::vector<std::string>> at;
        en.model.walk([&](const std::string& path, const NodeP& n) { at[n.get()].push_back(path); });
        for (auto i = acked.begin(); i != acked.end();)
        {
            auto a = at.find(i->first);
            if (a == at.end())
            {
                i = acked.erase(i);    // its last name is gone
                continue;
            }
            i->second.paths.insert(a->second.begin(), a->second.end());
            i->second.lo = std::min(i->second.lo, i->first->data.size);
            i->second.hi = std::max(i->second.hi, i->first->data.size);
            if (t.nodes.count(i->first) && !harmless.count(op.k))
                i->second.touched = true;
            ++i;
        }
        if (op.k != "fsync" || interrupted || !t.handle || !t.handle->has_durable)
            return;
        auto a = at.find(t.handle);
        if (a == at.end() || t.handle->kind != KF)
            return;
        Acked x;
        x.paths.insert(a->second.begin(), a->second.end());
        x.lo = x.hi = t.handle->data.size;
        en.model.walk(
            [&](const std::string&, const NodeP& n)
            {
                if (n.get() == t.handle)
                    x.keep = n;
            });
        acked[t.handle] = x;
        sim::probe("fsync acknowledged");
    };
    for (auto& op : p.ops)
    {
        auto* cs = spec_for(p, op);
        std::map<Node*, NodeP> alive;
        e.model.walk([&](const std::string&, const NodeP& n) { alive[n.get()] = n; });
        auto t = op_targets(e, op);
        if (op.k == "fsync" && t.handle && t.handle->kind == KF)
        {
            sim::begin_op(-4);
            struct stat st;
            if (e.k->fgetattr(e.hs[op.h], &st) >= 0)
                t.handle->ino = st.st_ino;
            sim::end_op();
        }
        if (!cs)
        {
            e.exec(op);
            note(e, op, t, false);
            continue;
        }
        Crashed c;
        std::map<Node*, std::string> ids;
        crash_in_op(e,
                    op,
                    *cs,
                    c,
                    [&]
                    {
                        if (e.v.full)
                            ids = ids_of(e, e.model);
                    });
        sim::begin_op(-3);
        bool unacked_sync = c.interrupted && op.k == "fsync";
        note(e, op, t, c.interrupted);
        Fmt f(e.v, *sim::disk);
        if (!e.v.full)
            e.mount();
        for (auto& [raw, a] : acked)
        {
            Node n = *raw;
            // an interrupted fsync acknowledged nothing: what the one before it did still holds
            if (unacked_sync && c.remap.count(raw))
                n.dirty = c.remap[raw]->dirty;
            std::string what = show(*a.paths.begin(), 60) + " (fsynced) after a power loss";
            sim::probe(a.touched ? "fsynced file, changed since" : "fsynced file, unchanged since");
            if (e.v.full)
            {
                auto id = ids.find(raw);
                if (id == ids.end())
                    sim::harness_error("no id for " + what);
                DFile d = f.full_file(id->second);
                if (!d.exists)
                    e.fail(op, "power-lost", what + " is not stored any more");
                if (!a.touched && (!d.mac_ok || !d.header_ok || !d.err.empty() || !d.xattr_err.empty()))
                    e.fail(op,
                           "power-damaged",
                           strf("%s is damaged: %s%s%s%s",
                                what.c_str(),
                                d.mac_ok ? "" : "authentication code wrong; ",
                                d.header_ok ? "" : "header wrong; ",
                                d.err.c_str(),
                                d.xattr_err.c_str()));
                if (!a.touched && ((d.mode & 0777) != (n.mode & 0777) || d.nlink != (uint32_t)n.nlink))
                    e.fail(op, "power-damaged", what + strf(" has mode %o, %u links", d.mode, d.nlink));
                if (!a.touched && p.ci("check_xattr") && d.xattrs != n.xattrs)
                    e.fail(op, "power-damaged", what + " has other extended attributes");
                if (!d.header_ok && e.v.pad)
                    continue;    // the padding is unknown
                check_blocks(e, op, what, n, d, a.lo, a.hi);
                continue;
            }
            // lite: it must be there under one of the names it had
            struct stat st;
            std::string found;
            for (auto& path : a.paths)
                if (e.k->getattr(path, &st) >= 0 && st.st_ino == n.ino)
                {
                    found = path;
                    break;
                }
            if (found.empty())
                e.fail(op, "power-lost", what + " is not there any more");
            if ((uint64_t)st.st_size < a.lo || (uint64_t)st.st_size > a.hi)
                e.fail(op,
                       "power-size",
                       strf("%s has size %lld, should have %llu to %llu",
                            what.c_str(),
                            (long long)st.st_size,
                            (unsigned long long)a.lo,
                            (unsigned long long)a.hi));
            Handle hd;
            int rc = e.k->open(found, O_RDONLY, 0, hd);
            if (rc < 0 && a.lo == 0)
                continue;
            if (rc < 0)
                e.fail(op, "power-open", strf("%s cannot be opened: %d", what.c_str(), rc));
            uint64_t B = e.v.block;
            for (uint64_t o = 0; o < a.lo; o += B)
            {
                std::string got;
                rc = e.k->read(hd, o, B, got);
                if (in_ranges(n, o, o + B))
                    continue;
                if (rc < 0)
                    e.fail(op,
                           "power-read",
                           strf("%s: reading block %llu fails with %d",
                                what.c_str(),
                                (unsigned long long)(o / B),
                                rc));
                std::string w = check_bytes(n, o, std::min<uint64_t>(B, st.st_size - o), got);
                if (!w.empty())
                    e.fail(op, "power-data", what + ": " + w);
            }
            e.k->close(hd);
        }
        if (!e.v.full)
            e.unmount();
        sim::end_op();
        return;
    }
}
static Plan gen_c03(uint64_t seed, bool thorough)
{
    Gen g("C03", seed);
    g.config(-1);
    g.p.set("verify", 1);
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.max_depth = 2;
    g.max_size = g.r.oneof<uint64_t>({2000, 20000, 60000});
    g.names.resize(g.r.range(2, 6));
    W w = {{"create", 5}, {"mkfile", 5}, {"open", 10}, {"close", 2}, {"write", 14}, {"append", 4},
           {"ftrunc", 4}, {"trunc", 3}, {"mkdir", 2}, {"unlink", 3}, {"rename", 6}, {"link", 3},
           {"symlink", 1}, {"chmod", 3}, {"utimens", 2}, {"setx", 4}, {"remx", 1}, {"readfile", 1},
           {"flush", 3}, {"fsync", 16}};
    int n = (int)g.r.range(6, thorough ? 100 : 40);
    while ((int)g.p.ops.size() < n)
    {
        size_t was = g.p.ops.size();
        Model keep = g.m.clone();
        g.fill(w, 1);
        if (g.p.ops.size() == was)
            break;
        // paths of directories stay put
        auto& o = g.p.ops.back();
        auto nd = o.k == "rename" ? keep.find(o.p) : nullptr;
        if (nd && nd->kind == KD)
        {
            o.k = "stat";
            g.m = keep;
            g.hs.clear();
            break;
        }
    }
    size_t first = 0;
    while (first < g.p.ops.size() && g.p.ops[first].k != "fsync")
        ++first;
    add_crashes(g, 1, true, first >= g.p.ops.size() ? 0 : first);
    return g.p;
}

extern const std::vector<Prop> kCrashProps;
const std::vector<Prop> kCrashProps = {
    {"C01", gen_c01, run_c01, "process crash, lite", 1},
    {"C02", gen_c02, run_c02, "process crash, full", 1},
    {"C03", gen_c03, run_c03, "power loss", 1},
};
}    // namespace h
