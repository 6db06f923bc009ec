// N01: nothing secret is stored in clear, no nonce is used twice. Watches every write on the
// simulated disk and looks at all names, targets and attributes after every operation.
#include "fmt.h"
#include "crash.h"
#include "nonce.h"

#include "params.pb.h"

#include <cstring>
#include <sys/stat.h>
#include <unordered_map>
#include <unordered_set>

namespace h
{
using sim::strf;
using std::string;
namespace
{
uint64_t load8(const char* p)
{
    uint64_t x;
    memcpy(&x, p, 8);
    return x;
}
uint64_t load16(const char* p) { return sim::mix64(load8(p), load8(p + 8)) | 1; }
bool dull(const char* p)    // too regular to mean anything
{
    unsigned n = 0;
    for (int i = 0; i < 8; ++i)
        n += !memchr(p, p[i], i);
    return n < 4;
}
bool zeros(const string& s) { return s.find_first_not_of('\0') == string::npos; }
string hex(const string& s, bool upper)
{
    string o;
    for (unsigned char c : s)
        for (int x : {c >> 4, c & 15})
            o.push_back((upper ? "0123456789ABCDEF" : "0123456789abcdef")[x]);
    return o;
}
}    // namespace
void Secrets::windows(const string& s, size_t stride)
{
    for (size_t i = 0; i + 8 <= s.size(); i += stride)
        if (!dull(&s[i]))
            w8.insert(load8(&s[i]));
}
void Secrets::encoded(const string& s)
{
    for (size_t i = 0; i + 16 <= s.size(); ++i)
        if (!dull(&s[i]))
            w16.insert(load16(&s[i]));
}
void Secrets::add(const string& s, bool text, bool cases)
{
    windows(s, text ? 1 : 8);
    string head = s.substr(0, 64);
    for (auto& e : {b32(head), hex(head, false), hex(head, true)})
        encoded(e);
    if (text && cases)
    {
        string lo = s, up = s;
        for (auto& c : lo)
            c = (char)tolower((unsigned char)c);
        for (auto& c : up)
            c = (char)toupper((unsigned char)c);
        windows(lo, 1);
        windows(up, 1);
    }
}
int Secrets::found(std::string_view d) const
{
    for (size_t i = 0; i + 8 <= d.size(); ++i)
    {
        if (w8.count(load8(&d[i])))
            return 1;
        if (i + 16 <= d.size() && w16.count(load16(&d[i])))
            return 2;
    }
    return 0;
}
struct Watch::Impl
{
    VolCfg v;
    Secrets sec;
    std::unordered_map<uint64_t, string> kind;    // inode -> d data, m meta, l lite, s other, k outside
    std::map<string, string> nonces;              // domain and IV -> tag
    std::unordered_map<uint64_t, string> texts;    // ciphertext -> where it was
    std::map<string, uint64_t> lite_ids;
    std::unordered_map<uint64_t, unsigned> lite_pad;
    std::set<std::pair<uint64_t, uint64_t>> later;    // inode, index: written in parts
    std::set<string> salts;
    std::map<string, string> config_ivs;
    string bad_tag, bad;
    uint64_t records = 0;

    void fail(const char* tag, const string& m)
    {
        if (bad.empty())
            bad_tag = tag, bad = m;
    }
    void secret(const string& s, bool text, bool cases = true) { sec.add(s, text, cases); }
    void scan(std::string_view d, const char* where)
    {
        if (int k = sec.found(d))
            fail("plaintext", strf(k == 1 ? "%s contains unencrypted data"
                                          : "%s contains unencrypted data in hexadecimal or base 32",
                                   where));
    }
    const string& kind_of(uint64_t ino)
    {
        auto it = kind.find(ino);
        if (it != kind.end())
            return it->second;
        string k = "s";
        for (auto& [i, n] : sim::disk->inodes)
            for (auto& [name, c] : n->ents)
                if (c == ino)
                {
                    string path = "/" + name;
                    for (auto* p = n.get(); p && p->ino != 1;)
                    {
                        auto* up = sim::disk->get(p->parent);
                        if (!up)
                            break;
                        for (auto& [pn, pi] : up->ents)
                            if (pi == p->ino)
                                path = "/" + pn + path;
                        p = up;
                    }
                    if (path.compare(0, g_data_dir.size() + 1, g_data_dir + "/") != 0)
                        k = path.find("/keys/k") != string::npos ? "k" : "s";
                    else if (name[0] == '.')
                        k = "s";
                    else if (!v.full)
                        k = "l";
                    else
                        k = name.size() > 5 && name.compare(name.size() - 5, 5, ".meta") == 0 ? "m" : "d";
                    // the id of the object is its path in the full format
                    if (k == "m" || k == "d")
                        k += path.substr(0, path.size() - (k == "m" ? 5 : 0));
                }
        return kind[ino] = k;
    }
    void nonce(const string& domain, const string& iv, const string& tag, const char* what)
    {
        if (zeros(iv) && zeros(tag))
            return;
        ++records;
        auto [it, fresh] = nonces.insert({domain + "|" + iv, tag});
        if (!fresh && it->second != tag)
            fail("nonce", strf("%s is encrypted under a nonce that was used before", what));
    }
    void text(const string& ct, const string& where, const char* what)
    {
        if (ct.size() < 16 || zeros(ct))
            return;
        uint64_t hsh = 0;
        for (size_t i = 0; i + 16 <= ct.size(); i += 16)
            hsh = sim::mix64(hsh, load16(&ct[i]));
        hsh = sim::mix64(hsh, ct.size());
        auto [it, fresh] = texts.insert({hsh, where});
        if (!fresh && it->second != where)
            fail("ciphertext", strf("%s is stored as the same bytes twice", what));
    }
    size_t unit() const { return v.iv + 16; }
    size_t meta_head() const { return 32 + unit() + (v.store_time ? 80 : 32); }
    void meta_entry(const sim::Inode& n, uint64_t idx)    // 0: the header
    {
        string m = idx ? n.read(meta_head() + (idx - 1) * unit(), unit()) : n.read(32, unit());
        if (m.size() == unit())
            nonce(kind_of(n.ino).substr(1), m.substr(0, v.iv), m.substr(v.iv),
                  idx ? "a block of a file" : "the header of a file");
    }
    string lite_id(const sim::Inode& n)
    {
        string id = n.read(0, 16);
        if (id.size() < 16)
            return "";
        auto [it, fresh] = lite_ids.insert({id, n.ino});
        if (!fresh && it->second != n.ino)
            fail("nonce", "two files have the same id, and hence the same key");
        if (zeros(id))
            fail("nonce", "the id of a file is not random");
        return id;
    }
    unsigned pad_of(const sim::Inode& n)
    {
        if (!v.pad)
            return 0;
        auto it = lite_pad.find(n.ino);
        if (it == lite_pad.end())
            it = lite_pad.insert({n.ino, Fmt(v, *sim::disk).lite_file(n.ino).head_padding}).first;
        return it->second;
    }
    void lite_block(const sim::Inode& n, uint64_t idx)
    {
        string id = lite_id(n);
        size_t U = v.block + unit();
        string b = n.read(16 + pad_of(n) + idx * U, U);
        if (id.empty() || b.size() <= unit() || zeros(b))
            return;
        string iv = b.substr(0, v.iv), ct = b.substr(v.iv, b.size() - unit());
        nonce(id, iv, b.substr(b.size() - 16), "a block of a file");
        text(ct, id + iv, "a block of a file");
    }
    void on_write(const sim::Inode& n, uint64_t off, std::string_view d)
    {
        string k = kind_of(n.ino);
        if (k[0] == 'k')
            return;
        scan(d, k[0] == 's' ? "a file of the repository" : "a stored file");
        uint64_t end = off + d.size();
        if (k[0] == 'm')
        {
            for (uint64_t i = 0;; ++i)
            {
                uint64_t s = i ? meta_head() + (i - 1) * unit() : 32, e = s + unit();
                if (s >= end)
                    break;
                if (e <= off)
                {
                    if (i && off > e)
                        i = std::max<uint64_t>(i, (off - meta_head()) / unit());
                    continue;
                }
                if (s >= off && e <= end)
                    meta_entry(n, i);
                else
                    later.insert({n.ino, i});
            }
        }
        else if (k[0] == 'd')
        {
            uint64_t i = off / v.block;
            for (; i * v.block < end; ++i)
                if (i * v.block >= off)
                    text(string(d.substr(i * v.block - off, v.block)), k + strf("%llu", (unsigned long long)i),
                         "a block of a file");
        }
        else if (k[0] == 'l' && n.size > 16 + pad_of(n))
        {
            uint64_t h = 16 + pad_of(n), U = v.block + unit();
            if (end <= h)
                return;
            for (uint64_t i = off > h ? (off - h) / U : 0; h + i * U < end; ++i)
            {
                uint64_t s = h + i * U, e = std::min<uint64_t>(s + U, n.size);
                if (s >= off && e <= end)
                    lite_block(n, i);
                else
                    later.insert({n.ino, i});
            }
        }
    }
    void after_op()
    {
        for (auto& [ino, i] : later)
            if (auto* n = sim::disk->get(ino))
                kind_of(ino)[0] == 'm' ? meta_entry(*n, i) : lite_block(*n, i);
        later.clear();
        for (auto& [ino, n] : sim::disk->inodes)
        {
            if (S_ISLNK(n->mode))
                scan(n->target, "the target of a symbolic link");
            for (auto& [name, c] : n->ents)
                scan(name, "a stored name");
            for (auto& [name, val] : n->xattrs)
            {
                scan(name, "the name of an attribute");
                scan(val, "the value of an attribute");
                if (name.compare(0, 5, "user.") != 0)
                    continue;
                string k = kind_of(ino);
                if (k[0] == 'l' && val.size() >= unit())
                {
                    nonce("attributes", val.substr(0, v.iv), val.substr(val.size() - 16), "an attribute");
                    text(val.substr(v.iv, val.size() - unit()), "x" + val.substr(0, v.iv), "an attribute");
                }
                if (k[0] == 'm' && val.size() == 32)
                    nonce("x" + k.substr(1), val.substr(0, 16), val.substr(16), "an attribute");
                if (k[0] == 'd')
                    text(val, k + name + strf("%zu", val.size()), "an attribute");
            }
        }
    }
};
Watch::Watch(const VolCfg& v) : im(new Impl)
{
    im->v = v;
    sim::g_on_write = [this](const sim::Inode& n, uint64_t off, std::string_view d) { im->on_write(n, off, d); };
}
Watch::~Watch() { sim::g_on_write = nullptr; }
void Watch::secret(const string& s, bool text) { im->secret(s, text); }
void Watch::before(const Op& op)
{
    bool plain = im->v.plain;
    auto names = [&](const string& path)
    {
        size_t i = 0;
        while (i < path.size())
        {
            size_t j = path.find('/', i);
            if (j == string::npos)
                j = path.size();
            if (!plain && j - i >= 8)
                im->secret(path.substr(i, j - i), true);
            i = j + 1;
        }
    };
    if (op.k == "create" || op.k == "chpass" || op.k == "migrate" || op.k == "info")
        return;
    names(op.p);
    if (op.k == "setx" || op.k == "getx" || op.k == "remx")
    {
        if (op.q.size() >= 8)
            im->secret(op.q.compare(0, 5, "user.") == 0 ? op.q.substr(5) : op.q, true, false);
    }
    else
        names(op.q);
    if (op.k == "symlink" && !plain)
        im->secret(op.s, true);
    if (op.len > 0 && op.len < 1000000 && op.ds)
        im->secret(gen_data(op.ds, op.len), false);
}
void Watch::after(const Op& op)
{
    im->after_op();
    if (!im->bad.empty())
        sim::violation(im->bad_tag, strf("op %d %s: %s", op.id, op.k.c_str(), im->bad.c_str()));
    if (im->records)
        sim::probe("nonce recorded");
}
void Watch::config(const Op& op, const string& content)
{
    securefs::EncryptedSecurefsParams e;
    if (content.empty() || content[0] == '{' || !e.ParseFromString(content))
        return;
    if (e.salt().size() < 16 || zeros(e.salt()))
        sim::violation("nonce", strf("op %d %s: the salt of the configuration is not random", op.id, op.k.c_str()));
    auto [it, fresh] = im->config_ivs.insert({e.salt(), e.ciphertext()});
    if (!fresh && it->second != e.ciphertext())
        sim::violation("nonce", strf("op %d %s: two configurations have the same salt", op.id, op.k.c_str()));
    auto [it2, fresh2] = im->config_ivs.insert({"iv" + e.iv(), e.ciphertext()});
    if (!fresh2 && it2->second != e.ciphertext())
        sim::violation("nonce", strf("op %d %s: two configurations have the same nonce", op.id, op.k.c_str()));
}

void run_n01_commands(Plan& p);
static void run_n01(Plan& p)
{
    if (p.ci("cmds"))
        return run_n01_commands(p);
    Engine e(p);
    sim::begin_op(-1000);
    e.init_volume();
    Watch w(e.v);
    for (int i = 0; i < 5; ++i)
        w.secret(key_bytes(e.v.keyseed, i), false);
    e.mount();
    sim::end_op();
    for (auto& op : p.ops)
    {
        w.before(op);
        e.exec(op);
        w.after(op);
    }
    Op fin;
    fin.k = "final";
    sim::begin_op(-1);
    e.unmount();
    w.after(fin);
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    w.after(fin);
    sim::end_op();
}
void gen_n01_commands(Gen& g, bool thorough);
static Plan gen_n01(uint64_t seed, bool thorough)
{
    Gen g("N01", seed);
    bool cmds = g.r.chance(1, 8);
    g.p.set("cmds", cmds);
    g.config(-1);
    if (g.p.ci("full") && g.r.chance(1, 4))
        g.p.set(g.r.chance(1, 2) ? "ci" : "uni", 1);
    if (!g.p.ci("full"))
    {
        g.p.set("plain", (int64_t)(!cmds && g.r.chance(1, 10)));
        if (!g.p.ci("plain"))
            g.p.set("longname", g.r.oneof({20, 40, 128}));
    }
    if (cmds)
    {
        g.p.set("plain", (int64_t)0);
        g.p.set("pad", (int64_t)0);
        g.p.set("store_time", (int64_t)0);
        g.p.set("legacy_io", (int64_t)0);
        g.p.set("ci", (int64_t)0);
        g.p.set("uni", (int64_t)0);
        g.p.set("argon_m", 8);
        g.p.set("extconfig", g.r.chance(1, 5));
    }
    g.finish_config();
    g.names.clear();
    // recognisable in whatever they are mixed with: no 8 bytes are all letters or digits
    int n = (int)g.r.range(3, 9);
    for (int i = 0; i < n; ++i)
    {
        string s = strf("%d~", i);
        size_t len = g.r.range(10, g.v.long_threshold > 0 && g.r.chance(1, 2) ? 200 : 90);
        while (s.size() < len)
            s.push_back(s.size() % 4 == 1 ? "~#%+=!"[g.r.below(6)] : (char)('a' + g.r.below(26)));
        g.names.push_back(s);
    }
    g.max_size = g.r.oneof<uint64_t>({600, 3000, 20000});
    W w = {{"create", 6}, {"mkfile", 12}, {"open", 6}, {"close", 5}, {"write", 16}, {"append", 5}, {"ftrunc", 5},
           {"trunc", 4}, {"mkdir", 6}, {"rmdir", 2}, {"unlink", 5}, {"rename", 6}, {"link", 3}, {"symlink", 6},
           {"chmod", 3}, {"utimens", 2}, {"setx", 8}, {"remx", 2}, {"flush", 2}, {"fsync", 2}, {"remount", 3}};
    if (cmds)
    {
        gen_n01_commands(g, thorough);
        return g.p;
    }
    g.fill(w, (int)g.r.range(8, thorough ? 150 : 50));
    // the same data again: in another file, at another place, at the same place
    std::vector<Op> extra;
    for (auto& o : g.p.ops)
        if ((o.k == "mkfile" || o.k == "write" || o.k == "setx") && o.len > 0 && g.r.chance(1, 4))
            extra.push_back(o);
    for (auto& o : extra)
    {
        uint64_t ds = o.ds;
        for (auto& x : g.p.ops)
            if (x.k == o.k && x.len > 0 && g.r.chance(1, 3))
                x.ds = ds;
    }
    return g.p;
}
extern const std::vector<Prop> kNonceProps;
const std::vector<Prop> kNonceProps = {{"N01", gen_n01, run_n01, "nothing in clear, no nonce twice"}};
}    // namespace h
