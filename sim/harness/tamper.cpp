// Somebody modifies the repository behind the program's back: T01 (file data and, in the full format,
// everything else), T02 (names, link targets, extended attributes).
#include "crash.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>

namespace h
{
using std::string;
static const char* const kLongNameDb = ".long_names.db";
struct Tamper
{
    Engine& e;
    Plan& plan;
    bool started = false;
    struct Taint
    {
        bool sized = false;     // its length may differ
        bool shifted = false;   // lite: holes may be read at shifted positions
        bool any = false;       // only "an authentic value or an error" is left
        std::vector<std::pair<uint64_t, string>> maybe;    // older content that may still be there
    };
    std::map<Node*, Taint> taint;
    // T02
    std::map<Node*, std::set<string>> hidden;    // directory -> canonical names that may be missing
    std::map<Node*, bool> listing_any;           // its listing may miss anything
    std::set<string> all_names, all_targets;
    std::map<Node*, std::set<string>> xattr_taint;    // names that may be missing or fail
    std::set<string> all_values, all_xnames;
    std::map<Node*, string> ids;    // full: what the object is stored as

    explicit Tamper(Engine& ee, Plan& p) : e(ee), plan(p) {}

    void fail(const Op& op, const string& tag, const string& msg) { e.fail(op, tag, msg); }

    // ---------------------------------------------------------------- what may be affected
    const Taint* taint_of(Node* n)
    {
        auto it = taint.find(n);
        return it == taint.end() ? nullptr : &it->second;
    }
    // may looking `p` up (and everything below) fail?
    bool path_tainted(const string& p)
    {
        for (string d = p;; d = parent_of(d))
        {
            auto n = e.model.find(d);
            if (n && taint_of(n.get()))
                return true;
            if (d != "/")
            {
                auto dn = e.model.parent(d);
                if (dn && listing_any.count(dn.get()))
                    return true;
                auto h = dn ? hidden.find(dn.get()) : hidden.end();
                if (h != hidden.end() && h->second.count(e.model.canon(base_of(d))))
                    return true;
            }
            if (d == "/")
                return false;
        }
    }
    // ---------------------------------------------------------------- tampering
    // The underlying inodes of an object: data and meta (full), or the one file (lite).
    uint64_t under(Node* n, bool meta)
    {
        if (!e.v.full)
            return meta ? 0 : n->ino;
        auto it = ids.find(n);
        if (it == ids.end())
            return 0;
        Fmt f(e.v, *sim::disk);
        return sim::disk->resolve(g_data_dir + "/" + f.path_of(it->second) + (meta ? ".meta" : ""));
    }
    void index()
    {
        if (!e.v.full)
            return;
        Fmt f(e.v, *sim::disk);
        std::function<void(const NodeP&, const string&)> rec = [&](const NodeP& n, const string& id)
        {
            ids[n.get()] = id;
            if (n->kind != KD)
                return;
            std::vector<DEnt> es;
            f.full_dir(f.full_file(id), es);
            for (auto& x : es)
                for (auto& [c, ent] : n->ents)
                    if (ent.name == x.name)
                        rec(ent.n, x.id);
        };
        rec(e.model.root, string(32, 0));
        e.model.walk(
            [&](const string& p, const NodeP& n)
            {
                if (!ids.count(n.get()))
                    fail(Op(), "format", p + " is not found in the storage");
            });
    }
    // positions of blocks whose bytes are all zero (a hole in the lite format)
    std::set<uint64_t> holes(const sim::Inode& i, uint64_t hdr)
    {
        std::set<uint64_t> out;
        uint64_t u = e.v.block + e.v.iv + 16;
        for (uint64_t o = hdr; o < i.size; o += u)
        {
            string s = i.read(o, u);
            if (std::all_of(s.begin(), s.end(), [](char c) { return c == 0; }))
                out.insert(o);
        }
        return out;
    }
    // full: blocks that look like holes
    std::set<uint64_t> full_holes(Node* n, uint64_t mh)
    {
        std::set<uint64_t> out;
        auto *d = sim::disk->get(under(n, false)), *m = sim::disk->get(under(n, true));
        if (!d || !m)
            return out;
        uint64_t unit = e.v.iv + 16;
        for (uint64_t b = 0; b * e.v.block < d->size; ++b)
            if (zero(d->read(b * e.v.block, e.v.block)) && zero(m->read(mh + b * unit, unit)))
                out.insert(b);
        return out;
    }
    static bool zero(const string& s)
    {
        return std::all_of(s.begin(), s.end(), [](char c) { return c == 0; });
    }
    static string whole(const sim::Inode* i) { return i->read(0, i->size); }
    static void put(sim::Inode* i, const string& s)
    {
        i->truncate(0);
        i->truncate(s.size());
        for (size_t o = 0; o < s.size(); o += 4096)
        {
            string c = s.substr(o, 4096);
            if (!zero(c))
                i->write(o, c.data(), c.size());
        }
    }
    void tamper(const Op& op)
    {
        NodeP n = e.model.find(op.p), n2 = op.q.empty() ? nullptr : e.model.find(op.q);
        if (!n || n->kind == KL ? !e.v.full : false)
            return;
        if (!n || (!e.v.full && n->kind != KF))
            return;
        bool meta = e.v.full && op.a, live = e.mnt != nullptr;
        sim::Inode* i = sim::disk->get(under(n.get(), meta));
        if (!i)
            return;
        Rng r(op.ds);
        string was = whole(i), now = was;
        Taint t = taint[n.get()], t2;
        bool fresh = !taint_of(n.get());
        (void)fresh;
        uint64_t sz = was.size(), B = e.v.block, u = e.v.full ? B : B + e.v.iv + 16;
        uint64_t unit = e.v.iv + 16, mh = 32 + unit + (e.v.store_time ? 80 : 32);
        uint64_t hdr = 0;
        if (!e.v.full)
        {
            Fmt f(e.v, *sim::disk);
            hdr = 16 + f.lite_file(n->ino).head_padding;
        }
        else if (meta)
            hdr = mh, u = unit;
        auto pos = [&]() -> uint64_t
        {
            if (!sz)
                return 0;
            uint64_t nb = sz > hdr ? (sz - hdr + u - 1) / u : 0;
            switch (r.below(5))
            {
            case 0:
                return r.below(std::min<uint64_t>(sz, std::max<uint64_t>(hdr, 1)));
            case 1:
                return sz - 1 - r.below(std::min<uint64_t>(sz, 40));
            case 2:
                return std::min(sz - 1, hdr + u * r.below(nb + 1) + r.below(60));
            case 3:
                return std::min(sz - 1, hdr + u * r.below(nb + 1) + u - 1 - r.below(std::min<uint64_t>(u, 20)));
            default:
                return r.below(sz);
            }
        };
        const string& K = op.s;
        bool sized = false, swap2 = false;
        string was2, now2;
        sim::Inode* i2 = nullptr;
        if (K == "flip" && sz)
        {
            int cnt = (int)r.oneof({1, 1, 1, 2, 8});
            while (cnt--)
                now[pos()] ^= (char)(1u << r.below(8));
        }
        else if (K == "junk" && sz)
        {
            uint64_t o = pos(), len = r.oneof<uint64_t>({1, 16, 100, u, 3 * u, sz});
            for (uint64_t k = o; k < std::min(sz, o + len); ++k)
                now[k] = (char)(1 + r.below(255));
        }
        else if (K == "swap" && sz > hdr + u && !(meta && live))
        {
            // two whole blocks (or two entries of the meta file) of one file
            uint64_t nb = (sz - hdr) / u;
            uint64_t a = r.below(nb), b = r.below(nb);
            for (uint64_t k = 0; k < u && nb > 1; ++k)
                std::swap(now[hdr + a * u + k], now[hdr + b * u + k]);
        }
        else if (K == "copy" && sz > hdr + u && !(meta && live))
        {
            uint64_t nb = (sz - hdr) / u;
            uint64_t a = r.below(nb), b = r.below(nb);
            now.replace(hdr + a * u, u, was, hdr + b * u, u);
        }
        else if (K == "pair" && e.v.full && !live && sz)
        {
            // blocks exchanged together with their checksums
            sim::Inode *di = sim::disk->get(under(n.get(), false)), *mi = sim::disk->get(under(n.get(), true));
            if (!di || !mi)
                return;
            i = di;
            i2 = mi;
            was = now = whole(di);
            was2 = now2 = whole(mi);
            uint64_t nb = was.size() / B;
            if (nb < 2 || was2.size() < mh + nb * unit)
                return;
            uint64_t a = r.below(nb), b = r.below(nb);
            for (uint64_t k = 0; k < B; ++k)
                std::swap(now[a * B + k], now[b * B + k]);
            for (uint64_t k = 0; k < unit; ++k)
                std::swap(now2[mh + a * unit + k], now2[mh + b * unit + k]);
        }
        else if (K == "trade" && e.v.full && n2 && n2 != n)
        {
            // two objects exchange their files
            sim::Inode *a = sim::disk->get(under(n.get(), meta)), *b = sim::disk->get(under(n2.get(), meta));
            if (!a || !b)
                return;
            t2 = taint[n2.get()];
            if (t.sized || t2.sized)
                return;
            bool both = op.b;
            i2 = b;
            was2 = whole(b);
            now2 = was;
            now = was2;
            sized = swap2 = true;
            if (both && !live)
            {
                sim::Inode *c = sim::disk->get(under(n.get(), !meta)),
                           *d = sim::disk->get(under(n2.get(), !meta));
                if (c && d)
                {
                    string x = whole(c), y = whole(d);
                    put(c, y);
                    put(d, x);
                }
            }
        }
        else if (K == "graft" && n2 && n2 != n && sz > hdr)
        {
            // one block of another file
            sim::Inode* b = sim::disk->get(under(n2.get(), meta));
            if (!b || b->size <= hdr)
                return;
            uint64_t nb = (sz - hdr + u - 1) / u, nb2 = (b->size - hdr + u - 1) / u;
            uint64_t at = hdr + u * r.below(nb);
            string s = b->read(hdr + u * (r.chance(1, 2) ? (at - hdr) / u % nb2 : r.below(nb2)), u);
            now.replace(at, std::min<uint64_t>(s.size(), sz - at), s, 0, std::min<uint64_t>(s.size(), sz - at));
        }
        else if (K == "cut" && sz && !t.sized)
        {
            uint64_t to = r.chance(1, 2) ? pos() : (sz > hdr ? hdr + u * r.below((sz - hdr) / u + 1) : 0);
            if (r.chance(1, 8))
                to = 0;
            now.resize(std::min(to, sz));
            sized = true;
        }
        else if (K == "grow" && !t.sized)
        {
            uint64_t len = r.oneof<uint64_t>({1, 16, 100, u, 3 * u, 5000});
            if (r.chance(1, 3))
                now.append(len, '\0');
            else
                for (uint64_t k = 0; k < len; ++k)
                    now.push_back((char)(1 + r.below(255)));
            sized = true;
        }
        else if (K == "drop" && e.v.full && n->id != 1 && !live)
        {
            Fmt f(e.v, *sim::disk);
            string p = g_data_dir + "/" + f.path_of(ids[n.get()]) + (meta ? ".meta" : "");
            auto* d = sim::disk->get(sim::disk->resolve(parent_of(p)));
            d->ents.erase(base_of(p));
            ++sim::R->tampers;
            t.sized = true;
            taint[n.get()] = t;
            return;
        }
        else
            return;
        if (now == was && now2 == was2)
            return;
        // A block of zeros is what a hole looks like, and neither format authenticates holes.
        bool hdr_changed = !e.v.full && now.compare(0, std::min<size_t>(hdr, now.size()), was, 0, std::min<size_t>(hdr, was.size()));
        if (!e.v.full)
        {
            auto h0 = holes(*i, hdr);
            put(i, now);
            auto h1 = holes(*i, hdr);
            bool bad = false;
            for (auto o : h1)
                bad = bad || (!h0.count(o) && o + 1 < was.size());
            if (bad)
            {
                put(i, was);
                return;
            }
            // the header decides how much padding there is
            if (hdr_changed && e.v.pad)
                sized = true;
            if (hdr_changed && e.v.pad && was.find(string(8, '\0')) != string::npos)
                t.shifted = true;    // zeros that remain may look like a hole
        }
        else
        {
            auto h0 = full_holes(n.get(), mh), g0 = n2 ? full_holes(n2.get(), mh) : h0;
            put(i, now);
            if (i2)
                put(i2, now2);
            // While an object is open, only its single blocks are protected.
            if (live && (full_holes(n.get(), mh) != h0 || (n2 && full_holes(n2.get(), mh) != g0)))
            {
                put(i, was);
                if (i2)
                    put(i2, was2);
                return;
            }
        }
        ++sim::R->tampers;
        t.sized = t.sized || sized;
        taint[n.get()] = t;
        if (swap2)
        {
            t2.sized = true;
            taint[n2.get()] = t2;
        }
        sim::trace("tamper %s %s meta=%d %zu -> %zu", K.c_str(), op.p.c_str(), meta, was.size(), now.size());
    }
    // T02: names, link targets and attributes
    void mutate(Rng& r, string& s)
    {
        static const char al[] = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789abcxyz-_=.0";
        if (s.empty() || r.chance(1, 10))
        {
            s.push_back(al[r.below(sizeof(al) - 1)]);
            return;
        }
        switch (r.below(4))
        {
        case 0:
            s.resize(s.size() - 1 - r.below(std::min<size_t>(s.size(), 12)));
            break;
        case 1:
            s.insert(s.begin() + r.below(s.size() + 1), al[r.below(sizeof(al) - 1)]);
            break;
        default:
            s[r.below(s.size())] = al[r.below(sizeof(al) - 1)];
        }
    }
    void tamper_names(const Op& op)
    {
        NodeP n = e.model.find(op.p), n2 = op.q.empty() ? nullptr : e.model.find(op.q);
        if (!n)
            return;
        Rng r(op.ds);
        const string& K = op.s;
        auto done = [&]
        {
            ++sim::R->tampers;
            sim::trace("tamper %s %s", K.c_str(), op.p.c_str());
        };
        auto dir_of = [&](const string& p) -> std::pair<NodeP, sim::Inode*>
        {
            auto d = p == "/" ? nullptr : e.model.parent(p);
            return {d, d ? sim::disk->get(d->ino) : nullptr};
        };
        if (K == "xflip" || K == "xname" || K == "xtrade" || K == "xforeign")
        {
            if (n->kind == KL)
                return;
            sim::Inode* i = sim::disk->get(under(n.get(), e.v.full && op.a));
            sim::Inode* o = e.v.full ? sim::disk->get(under(n.get(), !op.a)) : nullptr;
            if (!i)
                return;
            std::vector<string> have;
            for (auto& x : i->xattrs)
                if (x.first.compare(0, 5, "user.") == 0)
                    have.push_back(x.first);
            auto taint_all = [&]
            {
                for (auto& x : n->xattrs)
                    xattr_taint[n.get()].insert(x.first);
                xattr_taint[n.get()].insert("");
            };
            if (K == "xforeign")
            {
                string nm = "user.";
                size_t len = r.oneof({1, 10, 24, 40, 44});
                while (len--)
                    nm.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[r.below(64)]);
                i->xattrs[nm] = gen_data(r.next(), r.below(80));
                taint_all();
                return done();
            }
            if (have.empty())
                return;
            string a = r.pick(have), b = r.pick(have);
            taint_all();
            if (K == "xflip")
            {
                string& x = i->xattrs[a];
                switch (x.empty() ? 3 : r.below(5))
                {
                case 0:
                    // a cut to a length that is special in one of the formats, or any other
                    x.resize(std::min<size_t>(r.oneof({0, 0, 12, 16, 28, 32, (int)r.below(x.size())}), x.size()));
                    break;
                case 1:
                    i->xattrs.erase(a);
                    break;
                case 3:
                    x += gen_data(r.next() | 1, 1 + r.below(20));
                    break;
                default:
                    x[r.below(x.size())] ^= (char)(1u << r.below(8));
                }
            }
            else if (K == "xname")
            {
                string nm = a.substr(5);
                mutate(r, nm);
                string val = i->xattrs[a];
                i->xattrs.erase(a);
                i->xattrs["user." + nm] = val;
                if (o && r.chance(1, 2) && o->xattrs.count(a))
                {
                    string ov = o->xattrs[a];
                    o->xattrs.erase(a);
                    o->xattrs["user." + nm] = ov;
                }
            }
            else
            {
                std::swap(i->xattrs[a], i->xattrs[b]);
                if (o && r.chance(1, 2))
                    std::swap(o->xattrs[a], o->xattrs[b]);
            }
            return done();
        }
        if (e.v.full || e.v.plain)
            return;
        if (K == "nflip")
        {
            auto [d, di] = dir_of(op.p);
            if (!di)
                return;
            for (auto& [nm, ino] : di->ents)
                if (ino == n->ino)
                {
                    string x = nm;
                    mutate(r, x);
                    // Known: without the suffix it is a valid name (the hash of the long one).
                    if (!plan.ci("strict_suffix") && x.size() == 77 && nm.size() > 77
                        && nm.compare(0, 77, x) == 0)
                        return;
                    if (x.empty() || x == "." || x == ".." || di->ents.count(x) || x.size() > 255)
                        return;
                    string was = nm;
                    di->ents[x] = ino;
                    di->ents.erase(was);
                    for (auto& [cn, ent] : d->ents)
                        if (ent.n == n)
                            hidden[d.get()].insert(cn);
                    return done();
                }
            return;
        }
        if (K == "nforeign")
        {
            sim::Inode* di = n->kind == KD ? sim::disk->get(n->ino) : nullptr;
            if (!di)
                return;
            string nm;
            size_t len = r.oneof({3, 20, 28, 29, 60, 200});
            bool b32 = r.chance(2, 3);
            while (len--)
                nm.push_back(b32 ? "abcdefghijkmnpqrstuvwxyz23456789ABCDEFGHIJKMNPQRSTUVWXYZ"[r.below(56)]
                                 : (char)(33 + r.below(94)));
            for (auto& c : nm)
                if (c == '/')
                    c = '~';
            if (nm[0] == '.')
                nm[0] = 'x';
            if (!e.v.long_suffix.empty() && r.chance(1, 3))
                nm += e.v.long_suffix;
            if (di->ents.count(nm) || nm.size() > 255)
                return;
            auto i = std::make_shared<sim::Inode>();
            i->ino = sim::disk->next_ino++;
            i->mode = r.chance(1, 4) ? S_IFDIR | 0755 : r.chance(1, 4) ? S_IFLNK | 0777 : S_IFREG | 0644;
            i->nlink = S_ISDIR(i->mode) ? 2 : 1;
            i->parent = di->ino;
            if (S_ISLNK(i->mode))
                i->target = "whatever", i->size = 8;
            sim::disk->inodes[i->ino] = i;
            di->ents[nm] = i->ino;
            hidden[n.get()];
            return done();
        }
        if (K == "ldb")
        {
            sim::Inode* di = n->kind == KD ? sim::disk->get(n->ino) : nullptr;
            if (!di)
                return;
            for (auto& [nm, ino] : di->ents)
                if (nm == kLongNameDb)
                {
                    auto* i = sim::disk->get(ino);
                    string was = whole(i), now = was;
                    if (was.empty())
                        return;
                    int cnt = (int)r.oneof({1, 1, 4, 30});
                    if (r.chance(1, 6))
                        now.resize(r.below(now.size()));
                    else
                        while (cnt--)
                        {
                            uint64_t at = r.chance(1, 3) ? r.below(std::min<size_t>(200, now.size()))
                                                         : r.below(now.size());
                            for (int t = 0; t < 50 && !now[at]; ++t)
                                at = r.below(now.size());
                            now[at] ^= (char)(1u << r.below(8));
                        }
                    put(i, now);
                    listing_any[n.get()] = true;
                    return done();
                }
            return;
        }
        if (K == "lflip" || K == "ltrade")
        {
            sim::Inode* i = n->kind == KL ? sim::disk->get(n->ino) : nullptr;
            if (!i)
                return;
            if (K == "lflip")
            {
                mutate(r, i->target);
                if (i->target.empty())
                    i->target = "A";
            }
            else
            {
                sim::Inode* j = n2 && n2->kind == KL ? sim::disk->get(n2->ino) : nullptr;
                if (!j || i == j)
                    return;
                std::swap(i->target, j->target);
                j->size = j->target.size();
                taint[n2.get()].any = true;
            }
            i->size = i->target.size();
            taint[n.get()].any = true;
            return done();
        }
    }
    // ---------------------------------------------------------------- reading
    void bytes(const Op& op, Node& n, uint64_t off, size_t want, int rc, const string& got, bool may_fail)
    {
        auto* t = taint_of(&n);
        if (rc < 0)
        {
            if (!t && !may_fail)
                fail(op, "untouched", strf("reading an untouched file fails with errno %d", -rc));
            sim::probe("a read of a modified object was refused");
            return;
        }
        if (!t)
        {
            string w = check_bytes(n, off, want, got);
            if (!w.empty())
                fail(op, "untouched", "an untouched file: " + w);
            return;
        }
        string exp = n.data.read(off, want);
        if (got.size() > want)
            fail(op, "read", "more bytes than were asked for");
        if (!t->sized && got.size() != exp.size() && !t->shifted)
            fail(op,
                 "length",
                 strf("read at %llu of %zu bytes returns %zu instead of %zu, although the length "
                      "of the file was not modified",
                      (unsigned long long)off,
                      want,
                      got.size(),
                      exp.size()));
        if (!got.empty())
            sim::probe("a read of a modified object returned data");
        for (size_t i = 0; i < got.size(); ++i)
        {
            char x = off + i < n.data.size ? exp[i] : 0;
            if (got[i] == x || (t->shifted && got[i] == 0))
                continue;
            bool old = false;
            for (auto& m : t->maybe)
                old = old
                    || (off + i >= m.first && off + i < m.first + m.second.size()
                        && m.second[off + i - m.first] == got[i]);
            if (old)
                continue;
            fail(op,
                 "forged",
                 strf("byte %llu reads as 0x%02x instead of 0x%02x without an error after the "
                      "storage was modified",
                      (unsigned long long)(off + i),
                      (uint8_t)got[i],
                      (uint8_t)x));
        }
    }
    void check_attr(const Op& op, Node& n, const struct stat& st)
    {
        auto* t = taint_of(&n);
        uint32_t fmt = n.kind == KD ? S_IFDIR : n.kind == KF ? S_IFREG : S_IFLNK;
        if ((st.st_mode & S_IFMT) != fmt)
            fail(op, "attr", strf("the type of the object became 0%o", st.st_mode & S_IFMT));
        if (e.v.full && n.kind != KL)
        {
            if ((st.st_mode & 07777) != (n.mode & 07777))
                fail(op,
                     "attr",
                     strf("the mode reads as 0%o instead of 0%o", st.st_mode & 07777, n.mode & 07777));
            if (st.st_uid != n.uid || st.st_gid != n.gid)
                fail(op, "attr", "owner or group changed");
        }
        if (n.kind == KF && !(t && (t->sized || t->shifted)) && (uint64_t)st.st_size != n.data.size)
            fail(op,
                 "length",
                 strf("the size reads as %lld instead of %llu",
                      (long long)st.st_size,
                      (unsigned long long)n.data.size));
    }
    void listing(const Op& op, Node& d, int rc, std::vector<DirEnt>& l, bool may_fail)
    {
        auto* t = taint_of(&d);
        if (rc < 0)
        {
            if (!t && !may_fail && !listing_any.count(&d))
                fail(op, "untouched", strf("listing an untouched directory fails with errno %d", -rc));
            return;
        }
        std::set<string> seen;
        for (auto& x : l)
        {
            if (x.name == "." || x.name == "..")
                continue;
            if (!seen.insert(x.name).second && !listing_any.count(&d))
                fail(op, "listing", "'" + show(x.name, 60) + "' is listed twice");
            auto it = d.ents.find(e.model.canon(x.name));
            if (it == d.ents.end() || it->second.name != x.name)
                fail(op,
                     "listing",
                     "'" + show(x.name, 80) + "' is listed, but nobody created it there");
            auto& c = *it->second.n;
            uint32_t fmt = c.kind == KD ? S_IFDIR : c.kind == KF ? S_IFREG : S_IFLNK;
            // the table of long names maps hashes to names; it is not bound to the files
            bool h = (hidden.count(&d) && hidden[&d].count(it->first)) || listing_any.count(&d);
            if (!h && x.type && x.type != fmt)
                fail(op, "listing", "'" + show(x.name, 60) + "' is listed with another type");
            if (!h && x.ino && c.ino && x.ino != c.ino)
                fail(op, "listing", "'" + show(x.name, 60) + "' is listed with another inode");
        }
        for (auto& [cn, ent] : d.ents)
            if (!seen.count(ent.name) && !listing_any.count(&d)
                && !(hidden.count(&d) && hidden[&d].count(cn)))
                fail(op, "listing", "a listing succeeds without '" + show(ent.name, 60) + "'");
    }
    void rd_file(const Op& op, const string& p, uint64_t lim = ~0ull)
    {
        auto n = e.model.find(p);
        bool mf = path_tainted(p);
        Handle hd;
        int rc = e.k->open(p, O_RDONLY, 0, hd);
        if (rc < 0)
        {
            if (!mf)
                fail(op, "untouched", strf("opening an untouched file fails with errno %d", -rc));
            return;
        }
        Rng r(op.ds + 1);
        uint64_t end = n->data.size + 3 * e.v.block;
        size_t chunk = r.oneof<size_t>({1 << 17, 1 << 17, e.v.block, e.v.block + 7, 1000});
        int cnt = 0;
        for (uint64_t o = 0; o < end && cnt < 200; o += chunk, ++cnt)
        {
            string got;
            rc = e.k->read(hd, o, chunk, got);
            bytes(op, *n, o, chunk, rc, got, mf);
        }
        struct stat st;
        rc = e.k->fgetattr(hd, &st);
        if (rc >= 0)
            check_attr(op, *n, st);
        else if (!mf)
            fail(op, "untouched", "fstat of an untouched file fails");
        e.k->close(hd);
    }
    void rd_stat(const Op& op, const string& p)
    {
        auto n = e.model.find(p);
        struct stat st;
        int rc = e.k->getattr(p, &st);
        if (rc < 0)
        {
            if (!path_tainted(p))
                fail(op, "untouched", strf("stat of an untouched object fails with errno %d", -rc));
            return;
        }
        if (n->ino && st.st_ino != n->ino)
            fail(op, "attr", show(p, 60) + " is another object now");
        check_attr(op, *n, st);
    }
    void rd_link(const Op& op, const string& p)
    {
        auto n = e.model.find(p);
        string t;
        int rc = e.k->readlink(p, t);
        auto* tt = taint_of(n.get());
        if (rc < 0)
        {
            if (!path_tainted(p))
                fail(op, "untouched", strf("readlink of an untouched link fails with errno %d", -rc));
            return;
        }
        if (t == n->target || (tt && tt->any && all_targets.count(t)))
            return;
        if (tt && tt->sized && e.v.full && n->target.compare(0, t.size(), t) == 0)
            return;
        fail(op, "link", "readlink returns '" + show(t, 80) + "' instead of '" + show(n->target, 80) + "'");
    }
    void rd_dir(const Op& op, const string& p)
    {
        auto n = e.model.find(p);
        std::vector<DirEnt> l;
        int rc = e.k->list(p, l);
        listing(op, *n, rc, l, path_tainted(p));
    }
    void rd_x(const Op& op, const string& p)
    {
        auto n = e.model.find(p);
        if (n->kind == KL)
            return;
        bool mf = path_tainted(p);
        auto& bad = xattr_taint[n.get()];
        std::set<string> names;
        int rc = e.k->listxattr(p, names, -1);
        if (rc < 0)
        {
            if (!mf && bad.empty())
                fail(op, "untouched", strf("listxattr fails with errno %d", -rc));
        }
        else
        {
            for (auto& x : names)
                if (!n->xattrs.count(x) && !all_xnames.count(x))
                    fail(op, "xattr", "an attribute is listed that nobody created: " + show(x, 60));
            for (auto& x : n->xattrs)
                if (!names.count(x.first) && !bad.count(x.first) && !mf)
                    fail(op, "xattr", "attribute " + x.first + " is no longer listed");
        }
        for (auto& x : n->xattrs)
        {
            string v;
            // with a probe for the size, or straight into a buffer
            rc = e.k->getxattr(p, x.first, v, (x.first.size() + x.second.size() + op.id) % 3 ? -1 : 65536);
            if (rc < 0)
            {
                if (!mf && !bad.count(x.first))
                    fail(op, "untouched", strf("getxattr fails with errno %d", -rc));
            }
            else if (v != x.second && !(bad.count(x.first) && !e.v.full && all_values.count(v)))
                fail(op, "xattr", "the value of " + x.first + " is " + show(v) + ", nobody stored that");
        }
    }
    void sweep(const Op& op)
    {
        std::vector<std::pair<string, Kind>> all;
        e.model.walk([&](const string& p, const NodeP& n) { all.push_back({p, n->kind}); });
        for (auto& [p, kd] : all)
        {
            rd_stat(op, p);
            if (kd == KF)
                rd_file(op, p);
            if (kd == KL)
                rd_link(op, p);
            if (kd == KD)
                rd_dir(op, p);
            if (e.v.xattr && plan.ci("check_xattr"))
                rd_x(op, p);
        }
    }
    bool try_mount(const Op& op)
    {
        try
        {
            e.mount();
            return true;
        }
        catch (const std::exception& x)
        {
            e.k.reset();
            e.mnt.reset();
            if (!taint_of(e.model.root.get()))
                fail(op, "mount", string("mounting fails: ") + x.what());
            sim::probe("a modified root directory was refused");
            return false;
        }
    }
    bool live() { return plan.ci("live") != 0; }
    void start(const Op& op)
    {
        started = true;
        e.verify_all("before the storage is modified");
        e.model.walk(
            [&](const string&, const NodeP& n)
            {
                if (n->kind == KL)
                    all_targets.insert(n->target);
                for (auto& x : n->xattrs)
                    all_values.insert(x.second), all_xnames.insert(x.first);
            });
        if (plan.ci("live") != 1 || e.v.full)
        {
            e.unmount();
            index();
            if (live() && !try_mount(op))
                fail(op, "mount", "mounting fails");
            if (live() && e.v.full && plan.ci("live") == 1)
                e.verify_all("after a remount");    // everything is cached now
        }
    }
    // Returns false when the volume cannot be mounted any more.
    bool step(const Op& op)
    {
        const string& K = op.k;
        if (K == "tamper")
        {
            if (!live() && e.mnt)
                e.unmount();
            if (plan.prop == "T02")
                tamper_names(op);
            else
                tamper(op);
            return true;
        }
        if (!e.mnt && !try_mount(op))
            return false;
        auto n = op.p.empty() ? nullptr : e.model.find(op.p);
        auto h = e.hs.find(op.h);
        if (K == "remount")
        {
            e.unmount();
            return try_mount(op);
        }
        if (K == "readfile" && n && n->kind == KF)
            rd_file(op, op.p);
        else if (K == "stat" && n)
            rd_stat(op, op.p);
        else if (K == "ls" && n && n->kind == KD)
            rd_dir(op, op.p);
        else if (K == "readlink" && n && n->kind == KL)
            rd_link(op, op.p);
        else if (K == "getx" && n && e.v.xattr)
            rd_x(op, op.p);
        else if (K == "open" && n && n->kind == KF && h == e.hs.end())
        {
            Handle hd;
            int rc = e.k->open(op.p, op.flags & O_RDWR, 0, hd);
            if (rc >= 0)
            {
                hd.node = n;
                hd.acc = op.flags & O_RDWR;
                hd.path = op.p;
                ++n->opens;
                e.hs[op.h] = hd;
            }
            else if (!path_tainted(op.p))
                fail(op, "untouched", strf("open fails with errno %d", -rc));
        }
        else if (K == "close" && h != e.hs.end() && !h->second.dir)
        {
            e.k->close(h->second);
            --h->second.node->opens;
            e.hs.erase(h);
        }
        else if (K == "read" && h != e.hs.end() && !h->second.dir && h->second.acc != O_WRONLY)
        {
            string got;
            int rc = e.k->read(h->second, op.off, op.len, got);
            bytes(op, *h->second.node, op.off, op.len, rc, got, false);
        }
        else if (K == "write" && h != e.hs.end() && !h->second.dir && h->second.acc == O_RDWR && op.len > 0)
        {
            string d = gen_data(op.ds, op.len);
            Node& f = *h->second.node;
            before_change(f, op.off, op.off + op.len);
            int rc = e.k->write(h->second, op.off, d);
            if (rc == (int)d.size())
                f.data.write(op.off, d);
            else if (!taint_of(&f))
                fail(op, "untouched", strf("writing an untouched file returns %d", rc));
            else
            {
                sim::probe("a write to a modified object was refused");
                taint[&f].maybe.push_back({op.off, d});
            }
        }
        else if (K == "trunc" && n && n->kind == KF)
        {
            bool mf = path_tainted(op.p);
            before_change(*n, op.len, std::max<uint64_t>(op.len, n->data.size));
            int rc = e.k->truncate(op.p, op.len);
            if (rc >= 0)
                n->data.truncate(op.len);
            else if (!mf)
                fail(op, "untouched", strf("truncating an untouched file returns %d", rc));
            else if (!taint_of(n.get()))
                taint[n.get()].sized = true;
        }
        return true;
    }
    // A change of a modified object may fail half way, or be lost when it is written back.
    void before_change(Node& n, uint64_t from, uint64_t to)
    {
        if (!taint_of(&n))
            return;
        auto& t = taint[&n];
        if (from < n.data.size)
            t.maybe.push_back({from, n.data.read(from, std::min<uint64_t>(to, n.data.size) - from)});
        t.sized = true;
        t.shifted = true;    // where it was cut off, zeros fill the gap
    }
};
static void run_tamper(Plan& p)
{
    if (p.ci("config"))
        return run_config(p);
    Engine e(p);
    Tamper t(e, p);
    e.init_volume();
    e.mount();
    bool ok = true;
    for (auto& op : p.ops)
    {
        if (!ok)
            break;
        if (!t.started && op.k != "tamper")
        {
            if (op.k == "open" && (op.flags & 0x40000000))
                continue;
            e.exec(op);
            continue;
        }
        ++sim::R->ops;
        sim::begin_op(op.id);
        if (!t.started)
            t.start(op);
        ok = t.step(op);
        sim::end_op();
    }
    sim::begin_op(-1);
    Op fin;
    fin.k = "final";
    fin.ds = p.seed;
    if (!t.started)
        t.start(fin);
    for (int i = 0; ok && i < 2; ++i)
    {
        if (!e.mnt)
            ok = t.try_mount(fin);
        if (!ok)
            break;
        t.sweep(fin);
        e.unmount();
    }
    if (e.mnt)
        e.unmount();
    sim::end_op();
}
static void read_phase(Gen& g, int n, int max_handle, bool wr = false)
{
    for (int i = 0; i < n; ++i)
    {
        string f = g.any_path(KF), any = g.any_path(-1), l = g.any_path(KL);
        if (wr && g.r.chance(1, 4))
        {
            if (g.r.chance(1, 4))
            {
                if (f.empty())
                    continue;
                auto& o = g.p.add("trunc");
                o.p = f;
                o.len = (int64_t)g.pos(g.max_size);
                continue;
            }
            auto& o = g.p.add("write");
            o.h = (int)g.r.below(max_handle);
            o.off = (int64_t)g.pos(g.max_size);
            o.len = g.r.oneof<int64_t>({1, 20, 100, 1000, 5000});
            o.ds = g.r.next() >> 8;
            continue;
        }
        switch (g.r.below(9))
        {
        case 0:
        case 1:
            if (!f.empty())
            {
                auto& o = g.p.add("readfile");
                o.p = f;
                o.ds = g.r.next() >> 8;
            }
            break;
        case 2:
            g.p.add("ls").p = g.dir_path();
            break;
        case 3:
            if (!any.empty())
                g.p.add("stat").p = any;
            break;
        case 4:
            if (!l.empty())
                g.p.add("readlink").p = l;
            break;
        case 5:
            if (!f.empty())
            {
                auto& o = g.p.add("open");
                o.p = f;
                o.h = (int)g.r.below(max_handle);
                o.flags = wr && g.r.chance(1, 2) ? O_RDWR : O_RDONLY;
            }
            break;
        case 6:
            g.p.add("close").h = (int)g.r.below(max_handle);
            break;
        case 7:
        {
            auto& o = g.p.add("read");
            o.h = (int)g.r.below(max_handle);
            o.off = (int64_t)g.pos(g.max_size);
            o.len = g.r.oneof<int64_t>({1, 100, 4096, 5000, 131072});
            break;
        }
        default:
            if (g.r.chance(1, 3))
                g.p.add("remount");
            else if (!f.empty())
                g.p.add("getx").p = f;
        }
    }
}
static Plan gen_t01(uint64_t seed, bool thorough)
{
    Gen g("T01", seed);
    g.config(-1);
    g.p.set("verify", 1);
    g.finish_config();
    g.p.set("fd_slack", 1000000);
    g.max_size = g.r.oneof<uint64_t>({1000, 6000, 20000});
    g.names.resize(g.r.range(2, 8));
    bool big = g.v.full && g.r.chance(1, 3);
    if (big)
        for (int i = 0; i < 60; ++i)
            g.names.push_back(sim::strf("entry-%d", i));
    W w = {{"mkfile", 12}, {"open", 4}, {"write", 10}, {"ftrunc", 3}, {"trunc", 2}, {"mkdir", 4},
           {"symlink", g.v.full ? 3 : 1}, {"close", 1}, {"rename", 1}, {"unlink", 1}, {"link", 1},
           {"chmod", 1}, {"chown", 1}, {"append", 2}};
    if (big)
        g.fill({{"mkfile", 20}, {"mkdir", 1}}, (int)g.r.range(10, 70));
    g.fill(w, (int)g.r.range(4, thorough ? 50 : 22));
    g.p.set("live", g.r.oneof({0, 0, 1, 2}));
    int rounds = (int)g.r.range(1, thorough ? 8 : 4);
    bool wr = g.r.chance(1, 2);
    while (rounds--)
    {
        int n = (int)g.r.oneof({1, 1, 2, 4});
        while (n--)
        {
            string a = g.v.full ? (g.r.chance(1, 6) ? g.dir_path() : g.any_path(-1)) : g.any_path(KF);
            if (a.empty())
                continue;
            auto& o = g.p.add("tamper");
            o.p = a;
            o.q = g.any_path(g.v.full ? -1 : KF);
            o.a = g.r.chance(2, 5);
            o.b = g.r.chance(1, 2);
            o.ds = g.r.next() >> 8;
            static const char* kinds[] = {"flip", "flip", "flip", "junk", "swap", "copy", "pair", "pair",
                                          "trade", "graft", "graft", "cut", "cut", "grow", "drop"};
            o.s = kinds[g.r.below(sizeof(kinds) / sizeof(*kinds))];
        }
        read_phase(g, (int)g.r.range(0, wr ? 14 : 10), g.max_handles, wr);
    }
    return g.p;
}
static Plan gen_t02(uint64_t seed, bool thorough)
{
    Gen g("T02", seed);
    if (g.r.chance(1, 5))
    {
        gen_config(g.p, g.r, true);
        return g.p;
    }
    g.config(g.r.chance(1, 4));
    g.p.set("verify", 1);
    g.p.set("check_xattr", 1);
    if (!g.p.ci("full"))
    {
        g.p.set("plain", g.r.chance(1, 20));
        g.p.set("longname", g.r.oneof({0, 20, 128}));
    }
    g.finish_config();
    g.p.set("fd_slack", 1000000);
    g.max_size = 1000;
    g.names.resize(g.r.range(3, 8));
    if (!g.v.full && g.v.long_threshold > 0)
        for (int i = 0; i < 6; ++i)
        {
            std::string s = sim::strf("L%d", i);
            size_t len = g.r.range(g.v.long_threshold, 240);
            while (s.size() < len)
                s.push_back((char)('a' + g.r.below(26)));
            g.names.push_back(s);
        }
    W w = {{"mkfile", 12}, {"mkdir", 5}, {"symlink", 6}, {"rename", 3}, {"unlink", 2}, {"link", 1},
           {"setx", 12}, {"remx", 1}, {"open", 1}};
    g.fill(w, (int)g.r.range(6, thorough ? 70 : 30));
    g.p.set("live", g.r.oneof({0, 0, 1, 2}));
    int rounds = (int)g.r.range(1, thorough ? 8 : 4);
    while (rounds--)
    {
        int n = (int)g.r.oneof({1, 1, 2, 4});
        while (n--)
        {
            static const char* kl[] = {"nflip", "nflip", "nforeign", "nforeign", "ldb", "ldb", "lflip",
                                       "lflip", "ltrade", "xflip", "xflip", "xname", "xtrade", "xforeign"};
            auto& o = g.p.add("tamper");
            o.s = g.v.full ? kl[g.r.range(9, 13)] : kl[g.r.below(14)];
            o.ds = g.r.next() >> 8;
            o.a = g.r.chance(1, 2);
            if (o.s[0] == 'x')
                o.p = g.any_path(g.r.chance(1, 4) ? KD : KF);
            else if (o.s == "nforeign" || o.s == "ldb")
                o.p = g.dir_path();
            else if (o.s[0] == 'l')
                o.p = g.any_path(KL), o.q = g.any_path(KL);
            else
                o.p = g.any_path(-1);
            if (o.p.empty())
                g.p.ops.pop_back();
        }
        read_phase(g, (int)g.r.range(0, 10), g.max_handles);
    }
    return g.p;
}
extern const std::vector<Prop> kTamperProps;
const std::vector<Prop> kTamperProps = {
    {"T01", gen_t01, run_tamper, "modified storage", 3},
    {"T02", gen_t02, run_tamper, "modified names and attributes", 3},
};
}    // namespace h
