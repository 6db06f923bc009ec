#include "gen.h"

#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <sys/xattr.h>

namespace h
{
int model_apply(Model& m, const VolCfg& v, HandleMap& hs, const Op& op)
{
    const std::string& K = op.k;
    auto hget = [&](bool dir) -> NodeP
    {
        auto it = hs.find(op.h);
        if (it == hs.end() || (it->second.second == -1) != dir)
            return nullptr;
        return it->second.first;
    };
    if (K == "open")
    {
        if (hs.count(op.h))
            return -1;
        NodeP n = m.find(op.p);
        if (!n)
        {
            if (!(op.flags & O_CREAT))
                return ENOENT;
            int rc = m.create(op.p, KF, v.full ? op.mode & 0777 : op.mode | 0400);
            if (rc)
                return rc;
            n = m.find(op.p);
        }
        else
        {
            if ((op.flags & O_CREAT) && (op.flags & O_EXCL))
                return EEXIST;
            if (n->kind != KF)
                return EISDIR;
            if (op.flags & O_TRUNC)
                n->data.truncate(0);
        }
        ++n->opens;
        hs[op.h] = {n, (int)(op.flags & O_ACCMODE)};
        return 0;
    }
    if (K == "mkfile")
    {
        int rc = m.create(op.p, KF, v.full ? op.mode & 0777 : op.mode | 0400);
        if (!rc && op.len > 0)
            m.find(op.p)->data.write(0, gen_data(op.ds, op.len));
        return rc;
    }
    if (K == "opendir")
    {
        NodeP n = m.find(op.p);
        if (!n || n->kind != KD || hs.count(op.h))
            return ENOENT;
        ++n->opens;
        hs[op.h] = {n, -1};
        return 0;
    }
    if (K == "close" || K == "closedir")
    {
        auto n = hget(K == "closedir");
        if (!n)
            return -1;
        --n->opens;
        hs.erase(op.h);
        return 0;
    }
    if (K == "write" || K == "append")
    {
        auto n = hget(false);
        if (!n || hs[op.h].second == O_RDONLY || op.len <= 0)
            return -1;
        uint64_t off = K == "append" ? n->data.size : op.off;
        if (off + op.len > v.max_file())
            return EFBIG;
        n->data.write(off, gen_data(op.ds, op.len));
        return 0;
    }
    if (K == "ftrunc")
    {
        auto n = hget(false);
        if (!n || hs[op.h].second == O_RDONLY)
            return -1;
        if ((uint64_t)op.len > v.max_file())
            return EFBIG;
        n->data.truncate(op.len);
        return 0;
    }
    if (K == "trunc")
    {
        auto n = m.find(op.p);
        if (!n || n->kind != KF)
            return ENOENT;
        if ((uint64_t)op.len > v.max_file())
            return EFBIG;
        n->data.truncate(op.len);
        return 0;
    }
    if (K == "mkdir")
        return m.create(op.p, KD, op.mode & 0777);
    if (K == "symlink")
        return m.create(op.p, KL, 0644, op.s);
    if (K == "rmdir")
        return m.rmdir(op.p);
    if (K == "unlink")
        return m.unlink(op.p);
    if (K == "rename")
        return op.p == op.q ? 0 : m.rename(op.p, op.q);
    if (K == "link")
    {
        return m.link(op.p, op.q);
    }
    if (K == "chmod")
    {
        auto n = m.find(op.p);
        if (!n || n->kind == KL)
            return ENOENT;
        n->mode = op.mode;
        return 0;
    }
    if (K == "chown")
    {
        auto n = m.find(op.p);
        if (!n)
            return ENOENT;
        if (op.a != -1)
            n->uid = (uint32_t)op.a;
        if (op.b != -1)
            n->gid = (uint32_t)op.b;
        return 0;
    }
    if (K == "setx")
    {
        auto n = m.find(op.p);
        if (!v.xattr || !n || n->kind == KL)
            return ENOENT;
        if ((op.flags & XATTR_CREATE) && n->xattrs.count(op.q))
            return EEXIST;
        if ((op.flags & XATTR_REPLACE) && !n->xattrs.count(op.q))
            return ENODATA;
        n->xattrs[op.q] = gen_data(op.ds, op.len);
        return 0;
    }
    if (K == "remx")
    {
        auto n = m.find(op.p);
        if (!v.xattr || !n || n->kind == KL)
            return ENOENT;
        return n->xattrs.erase(op.q) ? 0 : ENODATA;
    }
    if (K == "remount")
    {
        for (auto& [i, x] : hs)
            --x.first->opens;
        hs.clear();
        return 0;
    }
    return 0;
}

Gen::Gen(const char* prop, uint64_t seed) : r(sim::mix64(seed, sim::hash_str(prop)))
{
    p.prop = prop;
    p.seed = seed;
    names = {"a", "b", "c", "d", "e", "foo", "bar.txt", "Data File", "x.y.z", "f00", "zz", "n9"};
}
void Gen::config(int full)
{
    bool f = full < 0 ? r.chance(1, 2) : full;
    p.set("full", f);
    p.set("block", f ? r.pick(blocks_f_()) : r.pick(blocks_l_()));
    p.set("iv", r.oneof({12, 12, 12, 16, 32}));
    p.set("pad", r.chance(1, 3) ? r.range(1, 300) : 0);
    if (f)
    {
        p.set("store_time", r.chance(1, 2));
        if (r.chance(1, 4))
            p.set("legacy_io", 1);
    }
    else
    {
        p.set("longname", r.chance(2, 3) ? 128 : 0);
        if (r.chance(1, 5))
            p.set("plain", 1);
    }
    if (r.chance(1, 10))
        p.set("verify", 0);
}
std::vector<unsigned>& Gen::blocks_l_()
{
    static std::vector<unsigned> v{4096, 4096, 512, 64, 100, 1024};
    return v;
}
std::vector<unsigned>& Gen::blocks_f_()
{
    static std::vector<unsigned> v{4096, 4096, 512, 128, 1000, 1024};
    return v;
}
void Gen::finish_config()
{
    v = VolCfg::from(p);
    m.full = v.full;
    m.ci_names = v.full ? v.ci : v.fold;
    m.nfc_names = v.full ? v.uni : v.nfc;
    m.name_max = v.name_max();
    m.target_ok = [v = v](const std::string& t) { return v.target_ok(t); };
    m.name_long = v.name_long();
    m.root = std::make_shared<Node>();
    m.root->id = 1;
    m.root->kind = KD;
    m.uid = m.gid = v.full ? 1000 : 0;
}
std::string Gen::comp() { return r.pick(names); }
std::string Gen::any_path(int kind)
{
    std::vector<std::string> c;
    m.walk(
        [&](const std::string& p, const NodeP& n)
        {
            if (n->id != 1 && (kind < 0 || n->kind == kind))
                c.push_back(p);
        });
    return c.empty() ? "" : r.pick(c);
}
std::string Gen::dir_path()
{
    std::vector<std::string> c;
    m.walk(
        [&](const std::string& p, const NodeP& n)
        {
            if (n->kind == KD)
                c.push_back(p);
        });
    return r.pick(c);
}
static std::string join(const std::string& d, const std::string& c)
{
    return d == "/" ? "/" + c : d + "/" + c;
}
std::string Gen::new_path()
{
    std::string d = dir_path();
    for (int i = 0; i < 6 && std::count(d.begin(), d.end(), '/') >= max_depth; ++i)
        d = dir_path();
    if (d != "/" && std::count(d.begin(), d.end(), '/') >= max_depth)
        d = "/";
    for (int i = 0; i < 8; ++i)
    {
        std::string p = join(d, comp());
        if (!m.find(p))
            return p;
    }
    return join(d, comp());
}
void Gen::pick_far(bool thorough)
{
    uint64_t b = v.block, unit = v.iv + 16;
    std::vector<uint64_t> all = {b << 16, b << 16, 1ull << 31, 1ull << 32, (b << 16) * (1 + r.below(8)), 1ull << 24};
    if (!v.full)
        all.insert(all.end(), {((1ull << 31) - 1) * b, ((1ull << 31) - 1) * b, b << 24, 1ull << 33, 1ull << (34 + r.below(6))});
    for (int i = 0; i < 2; ++i)
    {
        uint64_t x = r.pick(all);
        // The full format reads all of the meta data whenever a file is flushed.
        if (!v.full || x / b * unit < (thorough ? 64u << 20 : 12u << 20))
            far.push_back(x);
    }
}
uint64_t Gen::far_pos()
{
    uint64_t x = r.pick(far), d = pos(3 * v.block);
    return r.chance(1, 2) ? x + d : x - std::min(x, d);
}
uint64_t Gen::pos(uint64_t cap)
{
    uint64_t b = v.block;
    uint64_t x;
    switch (r.below(8))
    {
    case 0:
        x = r.below(b * 2 + 2);
        break;
    case 1:
        x = b * r.below(cap / b + 1);
        break;
    case 2:
        x = b * r.below(cap / b + 1) + r.below(3) - 1;
        break;
    case 3:
        x = r.below(64);
        break;
    case 4:
        x = 4096 * r.below(cap / 4096 + 1) + r.below(3);
        break;
    default:
        x = r.below(cap + 1);
    }
    if ((int64_t)x < 0)
        x = 0;
    return std::min(x, cap);
}
// a path for an operation that may legitimately fail
static std::string dubious(Gen& g)
{
    switch (g.r.below(4))
    {
    case 0:
    {
        std::string c = g.comp();
        if (c.size() > 100)
            c.resize(20);
        return join(g.dir_path(), c + "~none");
    }
    case 1:
    {
        auto f = g.any_path(KF);
        return f.empty() ? "/nonesuch" : join(f, g.comp());
    }
    case 2:
        return join(join(g.dir_path(), "missing-dir"), g.comp());
    default:
    {
        auto f = g.any_path(-1);
        return f.empty() ? "/" + g.comp() : f;
    }
    }
}
// the same path in another spelling
static std::string respell(Gen& g, const std::string& path)
{
    std::string out;
    size_t i = 1;
    if (path.size() < 2)
        return path;
    while (i <= path.size())
    {
        size_t j = path.find('/', i);
        if (j == std::string::npos)
            j = path.size();
        std::string c = path.substr(i, j - i);
        std::vector<std::string> same{c};
        for (auto& n : g.names)
            if (n != c && g.m.canon(n) == g.m.canon(c))
                same.push_back(n);
        out += "/" + g.r.pick(same);
        i = j + 1;
    }
    return out;
}
bool Gen::emit(const std::string& k)
{
    Op o;
    o.id = p.ops.empty() ? 1 : p.ops.back().id + 1;
    o.k = k;
    auto any_h = [&](bool dir, int acc) -> int
    {
        std::vector<int> c;
        for (auto& [i, x] : hs)
        {
            if (dir != (x.second == -1))
                continue;
            if (acc == O_WRONLY && x.second == O_RDONLY)
                continue;
            if (acc == O_RDONLY && x.second == O_WRONLY)
                continue;
            c.push_back(i);
        }
        return c.empty() ? -1 : r.pick(c);
    };
    auto free_h = [&]() -> int
    {
        for (int i = 0; i < max_handles; ++i)
            if (!hs.count(i))
                return i;
        return -1;
    };
    auto ds = [&]() -> uint64_t
    {
        uint64_t x = r.next() >> 8;
        if (r.below(12))
            x |= 2;
        return x ? x : 3;
    };
    auto mode = [&]() -> uint32_t
    { return r.oneof<uint32_t>({0644, 0600, 0755, 0640, 0444, 0777, 0400}); };
    if (k == "open" || k == "create")
    {
        o.k = "open";
        o.h = free_h();
        if (o.h < 0)
            return false;
        o.flags = r.oneof<uint32_t>({O_RDWR, O_RDWR, O_RDONLY, O_WRONLY});
        if (k == "create")
        {
            o.p = new_path();
            o.flags |= O_CREAT;
            if (r.chance(1, 3))
                o.flags |= O_EXCL;
        }
        else
        {
            o.p = r.chance(1, 12) ? dubious(*this) : any_path(KF);
            if (o.p.empty())
                return false;
            if (r.chance(1, 4))
                o.flags |= O_CREAT;
            if (r.chance(1, 14))
                o.flags |= O_CREAT | O_EXCL;
        }
        if ((o.flags & O_ACCMODE) != O_RDONLY && r.chance(1, 8))
            o.flags |= O_TRUNC;
        if ((o.flags & O_ACCMODE) == O_WRONLY && r.chance(1, 4))
            o.flags |= O_APPEND;
        // libfuse opens are done by uid 1000; access checks are not part of the model
        o.mode = mode() | 0200;
    }
    else if (k == "close" || k == "flush" || k == "fsync" || k == "fstat")
    {
        o.h = any_h(false, O_RDWR);
        if (o.h < 0)
            return false;
        if (k == "fsync")
            o.a = r.below(2);
    }
    else if (k == "read")
    {
        o.h = any_h(false, O_RDONLY);
        if (o.h < 0)
            return false;
        uint64_t sz = hs[o.h].first->data.size;
        o.off = r.chance(1, 8) ? sz + r.below(5000) : pos(sz + 20);
        if (!far.empty() && r.chance(1, 2))
            o.off = far_pos();
        o.len = 1 + pos(std::min<uint64_t>(max_size, 1 << 17) - 1);
    }
    else if (k == "write" || k == "append")
    {
        o.h = any_h(false, O_WRONLY);
        if (o.h < 0)
            return false;
        uint64_t sz = hs[o.h].first->data.size;
        uint64_t cap = std::min<uint64_t>(max_size, sz + 3 * v.block);
        if (r.chance(1, 10))
            cap = max_size;    // far past the end: leaves a hole
        o.off = k == "append" ? 0 : pos(cap);
        if (!far.empty() && r.chance(1, 2) && k == "write")
            o.off = far_pos();
        o.len = 1 + (r.chance(1, 6) ? pos(max_size / 2) : pos(std::min<uint64_t>(3 * v.block, max_size / 3)));
        if (max_size >= 20000 && r.chance(1, 50))
            o.len = r.chance(1, 2) ? 131072 : 131072 - pos(131071);    // the largest request
        o.ds = ds();
    }
    else if (k == "ftrunc")
    {
        o.h = any_h(false, O_WRONLY);
        if (o.h < 0)
            return false;
        uint64_t sz = hs[o.h].first->data.size;
        o.len = !far.empty() && r.chance(2, 3) ? far_pos() : pos(std::min<uint64_t>(max_size, sz + 2 * v.block));
    }
    else if (k == "trunc")
    {
        o.p = r.chance(1, 12) ? dubious(*this) : any_path(KF);
        if (o.p.empty())
            return false;
        auto n = m.find(o.p);
        o.len = !far.empty() && r.chance(2, 3)
            ? far_pos()
            : pos(std::min<uint64_t>(max_size, (n ? n->data.size : 0) + 2 * v.block));
    }
    else if (k == "mkfile")
    {
        o.p = r.chance(1, 20) ? dubious(*this) : new_path();
        o.mode = mode() | 0200;
        if (r.chance(1, 3))
        {
            o.len = 1 + pos(std::min<uint64_t>(2 * v.block, max_size));
            o.ds = ds();
        }
    }
    else if (k == "mkdir")
    {
        o.p = r.chance(1, 10) ? dubious(*this) : new_path();
        o.mode = r.oneof<uint32_t>({0755, 0700, 0777, 0711});
    }
    else if (k == "symlink")
    {
        o.p = r.chance(1, 10) ? dubious(*this) : new_path();
        switch (r.below(5))
        {
        case 0:
            o.s = any_path(-1);
            break;
        case 1:
            o.s = "../" + comp() + "/" + comp();
            break;
        case 2:
            o.s = "/";
            break;
        case 3:
            for (int i = 0; i < (int)r.range(2, 12); ++i)
                o.s += "/" + comp();
            break;
        case 4:
            if (r.chance(1, 2))
            {
                // The lite format cuts the encrypted target into pieces of 60 bytes.
                size_t len = r.chance(1, 2) ? 60 * r.range(1, 40) - 16 + r.range(-2, 2) : r.range(1, v.full || v.plain ? 4000 : 2400);
                while (o.s.size() < len)
                    o.s.push_back(r.chance(1, 12) ? '/' : (char)r.range(1, 255));
                break;
            }
            // fall through
        default:
            o.s = comp();
        }
        if (o.s.empty())
            o.s = "dangling";
    }
    else if (k == "rmdir")
    {
        o.p = r.chance(1, 6) ? dubious(*this) : any_path(KD);
        if (o.p.empty())
            return false;
    }
    else if (k == "unlink")
    {
        o.p = r.chance(1, 8) ? dubious(*this) : r.chance(1, 5) ? any_path(KL) : any_path(KF);
        if (o.p.empty())
            return false;
    }
    else if (k == "rename")
    {
        o.p = r.chance(1, 10) ? dubious(*this) : any_path(-1);
        if (o.p.empty())
            return false;
        switch (r.below(5))
        {
        case 0:
            o.q = dubious(*this);
            break;
        case 1:
        {
            auto n = m.find(o.p);
            o.q = any_path(n ? n->kind : -1);    // replace something of the same kind
            break;
        }
        default:
            o.q = new_path();
        }
        if (o.q.empty())
            return false;
    }
    else if (k == "link")
    {
        o.p = r.chance(1, 10) ? dubious(*this) : any_path(r.chance(1, 6) ? KL : KF);
        o.q = r.chance(1, 8) ? dubious(*this) : new_path();
        if (o.p.empty() || o.q.empty())
            return false;
    }
    else if (k == "readlink")
    {
        o.p = r.chance(1, 8) ? dubious(*this) : any_path(KL);
        if (o.p.empty())
            return false;
    }
    else if (k == "stat")
    {
        o.p = r.chance(1, 4) ? dubious(*this) : any_path(-1);
        if (o.p.empty())
            return false;
    }
    else if (k == "readfile")
    {
        o.p = any_path(KF);
        if (o.p.empty())
            return false;
        o.len = r.chance(1, 2) ? 0 : 1 + pos(3 * v.block);
        if (o.len == 1)
            o.len = 17;
    }
    else if (k == "ls")
    {
        o.p = r.chance(1, 10) ? dubious(*this) : dir_path();
    }
    else if (k == "opendir")
    {
        o.h = free_h();
        if (o.h < 0)
            return false;
        o.p = dir_path();
    }
    else if (k == "readdirh" || k == "closedir")
    {
        o.h = any_h(true, 0);
        if (o.h < 0)
            return false;
    }
    else if (k == "chmod" || k == "chown" || k == "utimens")
    {
        o.p = r.chance(1, 12) ? dubious(*this)
            : r.chance(1, 16) ? std::string("/")
                              : any_path(r.chance(1, 3) ? KD : r.chance(1, 8) ? KL : KF);
        if (o.p.empty())
            return false;
        if (k == "chmod")
            o.mode = mode();
        else if (k == "chown")
        {
            auto id = [&]() -> int64_t
            { return r.chance(1, 3) ? -1 : r.chance(1, 8) ? r.below(0xffffffffull) : r.below(70000); };
            o.a = id();
            o.b = id();
        }
        else
        {
            auto t = [&]() -> int64_t
            {
                int64_t s = r.chance(1, 6) ? r.range(-9000000000ll, 9000000000ll) : (int64_t)r.below(3000000000ull);
                return s * 1000000000ll + (int64_t)r.below(1000000000);
            };
            o.a = t();
            o.b = t();
            switch (r.below(6))
            {
            case 0:
                o.flags = 1;
                break;
            case 1:
                o.flags = r.oneof<uint32_t>({2 | 8, 2, 8});
                break;
            case 2:
                o.flags = r.oneof<uint32_t>({4, 16});
                break;
            }
        }
    }
    else if (k == "setx" || k == "getx" || k == "listx" || k == "remx")
    {
        if (!v.xattr)
            return false;
        o.p = r.chance(1, 20) ? std::string("/") : any_path(r.chance(1, 5) ? KD : KF);
        if (o.p.empty())
            return false;
        auto n = m.find(o.p);
        static const std::vector<std::string> xn = {"user.a",
                                                    "user.mime_type",
                                                    "user.Z",
                                                    "user.long-attribute-name-with-many-characters",
                                                    "user.\xc3\xa9t\xc3\xa9",
                                                    "user.b.c"};
        if (k != "listx")
            o.q = r.pick(xn);
        if (!n->xattrs.empty() && (k == "getx" || k == "remx") && r.chance(3, 4))
        {
            auto it = n->xattrs.begin();
            std::advance(it, r.below(n->xattrs.size()));
            o.q = it->first;
        }
        if (k == "setx")
        {
            o.len = r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 4) ? r.chance(1, 6) ? 60000 : 2000 : 60);
            o.ds = ds();
            o.flags = r.oneof<uint32_t>({0, 0, 0, 0, XATTR_CREATE, XATTR_REPLACE});
        }
        else if (k == "getx" && r.chance(1, 2))
        {
            auto it = n->xattrs.find(o.q);
            size_t sz = it == n->xattrs.end() ? 10 : it->second.size();
            o.a = std::max<int64_t>(1, (int64_t)sz + r.range(-4, 60));
        }
        else if (k == "listx" && r.chance(1, 2))
        {
            int64_t need = 0;
            for (auto& x : n->xattrs)
                need += x.first.size() + 1;
            o.a = std::max<int64_t>(1, need + r.range(-6, 200));
        }
    }
    else if (k == "tick")
        o.a = (int64_t)r.oneof<uint64_t>({1000, 1000000, 1500000000ull, 60000000000ull, 3600000000000ull});
    else if (k == "statfs" || k == "remount" || k == "verify")
        ;
    else
        sim::harness_error("generator: unknown op kind " + k);
    if ((m.ci_names || m.nfc_names) && r.chance(1, 3))
    {
        o.p = respell(*this, o.p);
        if (k == "rename" || k == "link")
            o.q = respell(*this, o.q);
    }
    if (!fits(o))
        return false;
    p.ops.push_back(o);
    apply(o);
    return true;
}
// SQLite cannot open files whose path exceeds 512 characters (known finding): keeps the path of
// every lookup table below that.
bool Gen::fits(const Op& o)
{
    // a migration changes which names count as long
    const bool migrates = p.prop == "C05";
    if (v.full || (v.long_threshold <= 0 && !migrates) || (o.k != "mkdir" && o.k != "rename"))
        return true;
    auto comp_len = [&](const std::string& c) -> size_t
    {
        size_t longer = 77 + std::max<size_t>(3, v.long_suffix.size());
        size_t plain = ((c.size() + 16) * 8 + 4) / 5;
        if (migrates)
            return std::max(longer, plain);
        return (int)c.size() > v.long_threshold ? longer : plain;
    };
    auto path_len = [&](const std::string& path)
    {
        size_t n = 0, i = 1;
        while (i < path.size())
        {
            size_t j = path.find('/', i);
            if (j == std::string::npos)
                j = path.size();
            n += 1 + comp_len(path.substr(i, j - i));
            i = j + 1;
        }
        return n;
    };
    const size_t base = g_data_dir.size() + sizeof("/.long_names.db-journal") + 8;
    size_t n = path_len(o.k == "mkdir" ? o.p : o.q);
    if (o.k == "rename")
    {
        NodeP src = m.find(o.p);
        if (src && src->kind != KD)
            return true;
        if (src)
        {
            std::function<size_t(const NodeP&)> deep = [&](const NodeP& d) -> size_t
            {
                size_t best = 0;
                for (auto& e : d->ents)
                    if (e.second.n->kind == KD)
                        best = std::max(best, 1 + comp_len(e.second.name) + deep(e.second.n));
                return best;
            };
            n += deep(src);
        }
    }
    return base + n <= 511;
}
void Gen::apply(const Op& op) { model_apply(m, v, hs, op); }
void Gen::fill(const std::vector<std::pair<const char*, int>>& weights, int n)
{
    int tot = 0;
    for (auto& w : weights)
        tot += w.second;
    for (int i = 0, tries = 0; i < n && tries < n * 20; ++tries)
    {
        int x = (int)r.below(tot);
        for (auto& w : weights)
        {
            x -= w.second;
            if (x < 0)
            {
                if (emit(w.first))
                    ++i;
                break;
            }
        }
    }
}
std::vector<std::string> unicode_names()
{
    return {"\xc3\xa9t\xc3\xa9",
            "e\xcc\x81t\xc3\xa9",
            "e\xcc\x81te\xcc\x81",
            "\xc3\x89T\xc3\x89",
            "Stra\xc3\x9f" "e",
            "STRASSE",
            "strasse",
            "\xce\xa3\xce\xaf\xcf\x83\xcf\x85\xcf\x86\xce\xbf\xcf\x82",
            "Hello",
            "HELLO",
            "hello",
            "\xe4\xb8\xad\xe6\x96\x87",
            "\xf0\x9f\x98\x80 smile",
            "\xe1\x84\x92\xe1\x85\xa1\xe1\x86\xab",
            "\xed\x95\x9c",
            "\xef\xac\x81" "x",
            "a b",
            ".hidden",
            "caf\xc3\xa9.TXT",
            "CAFE\xcc\x81.txt"};
}
}    // namespace h
