// I/O errors: F01.
#include "crash.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>

namespace h
{
// Puts every node of the executed model back to what it was when `pre` was cloned.
static void restore(Model& m, const Model& pre, const std::map<Node*, NodeP>& remap,
                    const std::map<Node*, NodeP>& alive)
{
    std::map<Node*, NodeP> back;    // clone -> original
    for (auto& [raw, c] : remap)
    {
        auto it = alive.find(raw);
        if (it != alive.end())
            back[c.get()] = it->second;
    }
    for (auto& [raw, c] : remap)
    {
        auto it = alive.find(raw);
        if (it == alive.end())
            continue;
        *it->second = *c;
        for (auto& [k, e] : it->second->ents)
            e.n = back[e.n.get()];
    }
    NodeP root = back[pre.root.get()];
    m = pre;
    m.root = root;
}
static void recount_opens(Engine& e)
{
    e.model.walk([](const std::string&, const NodeP& n) { n->opens = 0; });
    for (auto& [i, hd] : e.hs)
        if (hd.node)
            hd.node->opens = 0;
    for (auto& [i, hd] : e.hs)
        if (hd.node)
            ++hd.node->opens;
}
static HandleMap handles_of(Engine& e, const std::map<Node*, NodeP>* remap)
{
    HandleMap hm;
    for (auto& [i, hd] : e.hs)
        if (hd.node)
        {
            NodeP n = hd.node;
            if (remap)
            {
                auto it = remap->find(n.get());
                if (it == remap->end())
                    continue;
                n = it->second;
            }
            hm[i] = {n, hd.dir ? -1 : hd.acc};
        }
    return hm;
}
// the byte range of a file an operation may change
static bool range_of(const Op& op, const Node& n, uint64_t& lo, uint64_t& hi)
{
    uint64_t sz = n.data.size;
    if (op.k == "write" || op.k == "append")
    {
        uint64_t off = op.k == "append" ? sz : (uint64_t)op.off;
        lo = std::min(off, sz);
        hi = std::max(off + op.len, sz);
        return true;
    }
    if (op.k == "ftrunc" || op.k == "trunc")
    {
        lo = std::min<uint64_t>(op.len, sz);
        hi = std::max<uint64_t>(op.len, sz);
        return true;
    }
    if (op.k == "open" && (op.flags & O_TRUNC))
    {
        lo = 0;
        hi = sz;
        return true;
    }
    return false;
}
// The same for the files that are open without a name.
static void settle_unnamed(Engine& e, const Op& op, const std::set<Node*>& targets,
                           const std::map<Node*, NodeP>& alive, const std::set<Node*>& named)
{
    for (auto* t : targets)
    {
        if (!alive.count(t))
            continue;
        t->fuzzy = false;
        if (named.count(t) || t->kind != KF)
            continue;
        uint64_t lo = t->data.size, hi = lo, B = e.v.block;
        if (!range_of(op, *t, lo, hi))
            continue;
        Handle *rd = nullptr, *wr = nullptr;
        for (auto& [i, hd] : e.hs)
            if (hd.node.get() == t && !hd.dir)
            {
                if (hd.acc != O_WRONLY)
                    rd = &hd;
                if (hd.acc != O_RDONLY)
                    wr = &hd;
            }
        bool ok = rd != nullptr;
        Blob now;
        if (rd)
        {
            struct stat st;
            int rc = e.k->fgetattr(*rd, &st);
            if (rc)
                e.fail(op, "file-size", strf("fstat of an unlinked file fails with errno %d", -rc));
            now.truncate(st.st_size);
            for (uint64_t o = 0; o < (uint64_t)st.st_size; o += B)
            {
                std::string got;
                rc = e.k->read(*rd, o, B, got);
                // with padding, stored blocks are not aligned with these
                bool touched = o < hi + B && o + B + (e.v.pad ? B : 0) > lo / B * B;
                if (rc < 0)
                {
                    if (!touched)
                        e.fail(op,
                               "file-read",
                               strf("block %llu of an unlinked file, which was not being written, "
                                    "cannot be read after an injected error (%d)",
                                    (unsigned long long)(o / B),
                                    rc));
                    ok = false;
                    continue;
                }
                std::string w;
                if (!touched)
                    w = check_bytes(*t, o, B, got);
                if (!w.empty())
                    e.fail(op, "file-data", "an unlinked file after an injected error: " + w);
                now.write(o, got);
            }
        }
        if (!ok)
        {
            if (!wr)
            {
                t->lost = true;
                continue;
            }
            int rc = e.k->ftruncate(*wr, 0);
            if (rc < 0)
                e.fail(op,
                       "file-data",
                       strf("an unlinked file cannot be truncated after an injected error (%d)", rc));
            now = Blob();
        }
        t->data = now;
    }
}
struct IoOff
{
    IoOff() { sim::g_io_faults_enabled = false; }
    ~IoOff() { sim::g_io_faults_enabled = true; }
};
// An operation failed: the real state must be the one before it or the one after it.
static void resolve(Engine& e, const Op& op, const Model& pre, const std::map<Node*, NodeP>& remap,
                    const std::map<Node*, NodeP>& alive, const std::set<Node*>& targets,
                    const FaultHit& hit)
{
    IoOff off;
    sim::NoYield ny;
    sim::begin_op(-5);
    restore(e.model, pre, remap, alive);
    recount_opens(e);
    std::map<Node*, NodeP> rm;    // e.model -> post
    Model post = e.model.clone(&rm);
    for (auto& [i, hd] : e.hs)
        if (hd.node && !rm.count(hd.node.get()))
            rm[hd.node.get()] = std::make_shared<Node>(*hd.node);
    auto hm = handles_of(e, &rm);
    int want = model_apply(post, e.v, hm, op);
    bool changes = want == 0 && !hit.expected;
    Node* xnode = nullptr;
    auto prep = [&](Node& n)
    {
        n.mt_exact = n.at_exact = false;
        n.mt_lo = -1;
        if (e.v.full && (op.k == "setx" || op.k == "remx"))
        {
            n.xattr_uncertain = true;
            xnode = &n;
        }
        if (n.kind != KF)
            return;
        n.fuzzy = true;
        n.dirty.clear();
    };
    for (auto* t : targets)
    {
        uint64_t lo, hi;
        auto a = alive.find(t);
        if (a == alive.end())
            continue;
        bool r = range_of(op, *t, lo, hi);
        prep(*t);
        auto p = rm.find(t);
        if (p != rm.end())
            prep(*p->second);
        if (r)
        {
            t->dirty.push_back({lo, hi});
            if (p != rm.end())
                p->second->dirty.push_back({lo, hi});
        }
    }
    // objects that only exist afterwards
    std::set<Node*> known;
    for (auto& [raw, n] : rm)
        known.insert(n.get());
    post.walk(
        [&](const std::string&, const NodeP& n)
        {
            if (!known.count(n.get()))
                prep(*n), n->allow_broken = true;
        });
    // files that are open without a name
    std::set<Node*> named;
    e.model.walk([&](const std::string&, const NodeP& n) { named.insert(n.get()); });
    auto handles_match = [&](bool after) -> std::string
    {
        for (auto& [i, hd] : e.hs)
        {
            if (!hd.node || hd.dir || hd.node->kind != KF || named.count(hd.node.get()))
                continue;
            uint64_t want = after ? rm[hd.node.get()]->data.size : hd.node->data.size;
            uint64_t lo = want, hi = want;
            if (!after && targets.count(hd.node.get()))
                range_of(op, *hd.node, lo, hi), lo = std::min(lo, want), hi = std::max(hi, want);
            struct stat st;
            int rc = e.k->fgetattr(hd, &st);
            if (rc)
                return strf("fstat of the unlinked file of handle %d fails with errno %d", i, -rc);
            if ((uint64_t)st.st_size < lo || (uint64_t)st.st_size > hi)
                return strf("the unlinked file of handle %d has %llu bytes, should have %llu",
                            i,
                            (unsigned long long)st.st_size,
                            (unsigned long long)want);
        }
        return "";
    };
    // comparing reads the files
    // ... and entries that came and went set the times of directories
    for (auto* m : {&e.model, &post})
        m->walk(
            [](const std::string&, const NodeP& n)
            {
                n->at_exact = false;
                n->mt_exact &= n->kind != KD;
            });
    std::string bad1 = changes ? e.compare_tree(post, true) : "it should fail anyway";
    if (bad1.empty())
        bad1 = handles_match(true);
    bool is_post = bad1.empty();
    if (!is_post)
    {
        std::string bad0 = e.compare_tree(e.model, true);
        if (bad0.empty())
            bad0 = handles_match(false);
        if (!bad0.empty())
            e.fail(op,
                   "fault-torn",
                   strf("%s failed with errno %d because of an injected error, and left neither the "
                        "state before it: %s\n  nor the one after it: %s",
                        op.k.c_str(),
                        -hit.rc,
                        bad0.c_str(),
                        bad1.c_str()));
    }
    sim::probe(is_post ? "failed, state after" : "failed, state before");
    std::map<Node*, Node*> before;
    if (is_post)
    {
        auto hm2 = handles_of(e, nullptr);
        model_apply(e.model, e.v, hm2, op);
        recount_opens(e);
        std::set<Node*> old;
        for (auto& [raw, n] : alive)
            old.insert(raw);
        e.model.walk(
            [&](const std::string&, const NodeP& n)
            {
                if (!old.count(n.get()))
                    prep(*n), n->allow_broken = true;
            });
        for (auto& [raw, n] : remap)
            before[raw] = n.get();
    }
    else
        for (auto& [raw, n] : rm)
            before[raw] = n.get();
    // truncation is two steps in the lite format too
    bool torn_ok = e.v.full || op.k == "trunc" || op.k == "ftrunc";
    for (auto& f : e.plan.faults)
        if (f.op == op.id && f.err == 0)
            torn_ok = true;
    settle(e, op, e.model, before, is_post, torn_ok, "after an injected error");
    settle_unnamed(e, op, targets, alive, named);
    if (xnode)
    {
        auto n = e.model.find(op.p);
        e.model.walk([](const std::string&, const NodeP& x) { x->xattr_uncertain = false; });
        std::string val, old, neu = gen_data(op.ds, op.len);
        int rc = e.k->getxattr(op.p, op.q, val, -1);
        bool had = false;
        auto a = remap.find(n.get());
        if (a != remap.end() && a->second->xattrs.count(op.q))
        {
            had = true;
            old = a->second->xattrs[op.q];
        }
        if (rc == -ENODATA)
        {
            if (had && op.k == "setx")
                e.fail(op, "fault-xattr", "a failed setxattr removed the old value");
            n->xattrs.erase(op.q);
            // half an attribute may be left
            e.k->removexattr(op.p, op.q);
        }
        else if (rc < 0)
        {
            sim::probe("attribute unreadable after a failed setxattr");
            rc = e.k->removexattr(op.p, op.q);
            if (rc < 0)
                e.fail(op,
                       "fault-xattr",
                       strf("the attribute can be neither read nor removed afterwards (%d)", rc));
            n->xattrs.erase(op.q);
        }
        else
        {
            bool ok = (had && val == old) || (op.k == "setx" && val == neu);
            if (!ok)
                e.fail(op, "fault-xattr", "the attribute has a value nobody set");
            n->xattrs[op.q] = val;
        }
        std::string bad = e.compare_tree(e.model, false);
        if (!bad.empty())
            e.fail(op, "fault-xattr", bad);
    }
    sim::end_op();
}
static void run_f01(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    e.tolerant = true;
    for (auto& op : p.ops)
    {
        bool has = false;
        for (auto& f : p.faults)
            has = has || f.op == op.id;
        if (!has)
        {
            e.exec(op);
            continue;
        }
        if (op.k == "remount")
        {
            // a mount that meets an error fails cleanly and can be repeated
            sim::begin_op(op.id);
            {
                IoOff off;
                e.unmount();
            }
            bool up = false;
            try
            {
                e.mount();
                up = true;
            }
            catch (const std::exception& x)
            {
                sim::probe("mount failed");
                e.k.reset();
                e.mnt.reset();
            }
            sim::end_op();
            if (!up)
            {
                sim::begin_op(-6);
                e.mount();
                sim::end_op();
            }
            continue;
        }
        std::map<Node*, NodeP> remap, alive;
        e.model.walk([&](const std::string&, const NodeP& n) { alive[n.get()] = n; });
        Model pre = e.model.clone(&remap);
        for (auto& [i, hd] : e.hs)
            if (hd.node)
            {
                alive[hd.node.get()] = hd.node;
                if (!remap.count(hd.node.get()))
                    remap[hd.node.get()] = std::make_shared<Node>(*hd.node);
            }
        auto t = op_targets(e, op);
        try
        {
            e.exec(op);
        }
        catch (const FaultHit& hit)
        {
            sim::end_op();
            resolve(e, op, pre, remap, alive, t.nodes, hit);
        }
    }
    sim::begin_op(-1);
    e.verify_all("at the end");
    e.unmount();
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    sim::end_op();
}

static void add_faults(Gen& g, int n)
{
    static const std::vector<std::pair<int, std::vector<int>>> kinds = {
        {sim::C_OPEN, {EIO, EMFILE, EACCES, ENOSPC}},
        {sim::C_READ, {EIO}},
        {sim::C_WRITE, {EIO, ENOSPC, EDQUOT}},
        {sim::C_TRUNC, {EIO, ENOSPC, EFBIG}},
        {sim::C_FSYNC, {EIO, ENOSPC}},
        {sim::C_STAT, {EIO, EACCES}},
        {sim::C_UNLINK, {EIO, EACCES, EBUSY}},
        {sim::C_MKDIR, {EIO, ENOSPC, EACCES}},
        {sim::C_RMDIR, {EIO, EBUSY}},
        {sim::C_RENAME, {EIO, ENOSPC, EACCES}},
        {sim::C_LINK, {EIO, ENOSPC, EMLINK}},
        {sim::C_SYMLINK, {EIO, ENOSPC}},
        {sim::C_READLINK, {EIO}},
        {sim::C_CHMOD, {EIO, EPERM}},
        {sim::C_CHOWN, {EIO, EPERM}},
        {sim::C_UTIMENS, {EIO, EPERM}},
        {sim::C_OPENDIR, {EIO, EMFILE}},
        {sim::C_READDIR, {EIO}},
        {sim::C_XATTR, {EIO, ENOSPC, ENOTSUP}},
        {sim::C_LOCK, {EIO, ENOLCK}},
        {sim::C_FLOCK, {EIO, ENOLCK}},
        {sim::C_STATFS, {EIO}},
        {sim::C_RANDOM, {EIO}},
    };
    std::vector<int> ids;
    for (auto& o : g.p.ops)
        if (o.k != "verify" && o.k != "tick")
            ids.push_back(o.id);
    if (ids.empty())
        return;
    for (int i = 0; i < n; ++i)
    {
        sim::Fault f;
        f.op = g.r.pick(ids);
        auto& k = g.r.chance(1, 2) ? kinds[g.r.oneof({0, 1, 2, 2, 3})] : kinds[g.r.below(kinds.size())];
        f.cls = k.first;
        f.err = k.second[g.r.below(k.second.size())];
        f.nth = (int)g.r.oneof({1, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12});
        f.count = (int)g.r.oneof({1, 1, 1, 2, 3, 1000});
        // In the full format a block and its checksum are two writes to two files. When only the
        // second one fails the block is lost, and with it a whole directory, which no amount of
        // care can avoid in that format. So either the first one fails or all of them do.
        if (g.v.full && f.cls == sim::C_WRITE)
        {
            if (g.r.chance(1, 3))
                f.nth = 1, f.count = 1000000;
            else
                f.cls = sim::C_DWRITE;
        }
        g.p.faults.push_back(f);
        if (!g.v.full && f.cls == sim::C_WRITE && g.r.chance(1, 4))
        {
            // the disk fills up in the middle of a transfer
            sim::Fault s = f;
            s.err = 0;
            s.shortlen = (int64_t)g.r.below(5000);
            s.count = 1;
            g.p.faults.back().nth = f.nth + 1;
            g.p.faults.push_back(s);
        }
    }
    if (g.r.chance(1, 5))
    {
        // the disk is full for a while
        size_t a = g.r.below(ids.size()), b = std::min(ids.size(), a + g.r.range(2, 12));
        for (size_t i = a; i < b; ++i)
            for (int c : {(int)sim::C_WRITE, (int)sim::C_TRUNC, (int)sim::C_MKDIR, (int)sim::C_SYMLINK,
                          (int)sim::C_LINK, (int)sim::C_XATTR})
            {
                sim::Fault f;
                f.op = ids[i];
                f.cls = c;
                f.err = ENOSPC;
                f.count = 1000000;
                g.p.faults.push_back(f);
            }
    }
}
static Plan gen_f01(uint64_t seed, bool thorough)
{
    Gen g("F01", seed);
    g.config(-1);
    g.p.set("verify", 1);
    if (!g.p.ci("full") && g.r.chance(1, 3))
    {
        g.p.set("plain", (int64_t)0);
        g.p.set("longname", g.r.oneof({20, 128}));
    }
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.p.set("fd_slack", 1000000);
    g.max_size = g.r.oneof<uint64_t>({2000, 20000});
    g.names.resize(g.r.range(3, 8));
    if (!g.v.full && !g.v.plain && g.v.long_threshold > 0)
        for (int i = 0; i < 4; ++i)
        {
            std::string s = sim::strf("L%d", i);
            size_t len = g.r.range(g.v.long_threshold, 240);
            while (s.size() < len)
                s.push_back((char)('a' + g.r.below(26)));
            g.names.push_back(s);
        }
    bool big = g.v.full && g.r.chance(1, 3);
    if (big)
        for (int i = 0; i < 60; ++i)
            g.names.push_back(sim::strf("entry-%d", i));
    W w = {{"create", 6}, {"mkfile", 10}, {"open", 8}, {"close", 4}, {"read", 4}, {"write", 12},
           {"append", 4}, {"ftrunc", 5}, {"trunc", 4}, {"mkdir", 7}, {"rmdir", 4}, {"unlink", 5},
           {"rename", 10}, {"link", 3}, {"symlink", 3}, {"readlink", 2}, {"chmod", 3}, {"chown", 1},
           {"utimens", 2}, {"setx", 3}, {"getx", 2}, {"listx", 1}, {"remx", 1}, {"readfile", 2},
           {"ls", 4}, {"stat", 3}, {"flush", 2}, {"fsync", 2}, {"remount", 1}, {"opendir", 1},
           {"readdirh", 1}, {"closedir", 1}, {"statfs", 1}};
    if (big)
        g.fill({{"mkfile", 20}, {"mkdir", 1}, {"rename", 1}}, (int)g.r.range(20, 80));
    g.fill(w, (int)g.r.range(4, thorough ? 80 : 30));
    if (big)
        g.fill({{"mkfile", 3}, {"unlink", 20}, {"rename", 6}, {"ls", 2}, {"remount", 2}},
               (int)g.r.range(5, 60));
    add_faults(g, (int)g.r.range(1, big ? 12 : 6));
    return g.p;
}
extern const std::vector<Prop> kFaultProps;
const std::vector<Prop> kFaultProps = {
    {"F01", gen_f01, run_f01, "I/O errors", 1},
};
}    // namespace h
