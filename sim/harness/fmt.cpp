#include "fmt.h"

#include <cryptopp/aes.h>
#include <cryptopp/blake2.h>
#include <cryptopp/cmac.h>
#include <cryptopp/gcm.h>
#include <cryptopp/hmac.h>
#include <cryptopp/modes.h>
#include <cryptopp/sha.h>

#include <algorithm>
#include <sqlite3.h>

namespace h
{
using CryptoPP::byte;
using std::string;
static const byte* B(const string& s) { return reinterpret_cast<const byte*>(s.data()); }
static byte* B(string& s) { return reinterpret_cast<byte*>(&s[0]); }
static string hmac256(const string& key, const string& m)
{
    CryptoPP::HMAC<CryptoPP::SHA256> h(B(key), key.size());
    h.Update(B(m), m.size());
    string o(32, 0);
    h.Final(B(o));
    return o;
}
static string expand(const string& prk, const string& info, size_t n)
{
    string t, out;
    for (int c = 1; out.size() < n; ++c)
    {
        t = hmac256(prk, t + info + (char)c);
        out += t;
    }
    return out.substr(0, n);
}
static bool gcm_open(const string& key, const string& iv, const string& aad, const string& ct, const string& mac, string& pt)
{
    CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
    static const byte z[12] = {};
    dec.SetKeyWithIV(B(key), key.size(), z, 12);
    pt.assign(ct.size(), 0);
    return dec.DecryptAndVerify(
        B(pt), B(mac), mac.size(), B(iv), (int)iv.size(), B(aad), aad.size(), B(ct), ct.size());
}
static string aes_ecb(const string& key, const string& blk)
{
    CryptoPP::ECB_Mode<CryptoPP::AES>::Encryption e(B(key), key.size());
    string o(blk.size(), 0);
    e.ProcessData(B(o), B(blk), blk.size());
    return o;
}
static unsigned be_mod(const string& s, unsigned m)
{
    uint64_t r = 0;
    for (unsigned char c : s)
        r = (r * 256 + c) % m;
    return (unsigned)r;
}
static bool zeros(const string& s)
{
    return std::all_of(s.begin(), s.end(), [](char c) { return c == 0; });
}
static string cmac(const string& key, const string& m)
{
    CryptoPP::CMAC<CryptoPP::AES> c(B(key), key.size());
    string o(16, 0);
    c.CalculateDigest(B(o), B(m), m.size());
    return o;
}
static string dbl(string s)
{
    int carry = (unsigned char)s[0] >> 7;
    for (int i = 0; i < 16; ++i)
        s[i] = (char)(((unsigned char)s[i] << 1) | (i < 15 ? (unsigned char)s[i + 1] >> 7 : 0));
    if (carry)
        s[15] ^= (char)0x87;
    return s;
}
static string s2v(const string& k, const string& t)
{
    string D = cmac(k, string(16, 0));
    if (t.size() >= 16)
    {
        string T = t;
        for (int i = 0; i < 16; ++i)
            T[T.size() - 16 + i] ^= D[i];
        return cmac(k, T);
    }
    D = dbl(D);
    string p = t;
    p.push_back((char)0x80);
    p.resize(16, 0);
    for (int i = 0; i < 16; ++i)
        D[i] ^= p[i];
    return cmac(k, D);
}
static string ctr(const string& k, string iv, const string& in)
{
    iv[8] &= 0x7f;
    iv[12] &= 0x7f;
    CryptoPP::CTR_Mode<CryptoPP::AES>::Encryption e(B(k), k.size(), B(iv));
    string o(in.size(), 0);
    if (!in.empty())
        e.ProcessData(B(o), B(in), in.size());
    return o;
}
string siv_encrypt(const string& key, const string& text)
{
    size_t h = key.size() / 2;
    string iv = s2v(key.substr(0, h), text);
    return iv + ctr(key.substr(h), iv, text);
}
string siv_decrypt(const string& key, const string& blob, bool& ok)
{
    ok = false;
    if (blob.size() < 16)
        return "";
    size_t h = key.size() / 2;
    string iv = blob.substr(0, 16);
    string pt = ctr(key.substr(h), iv, blob.substr(16));
    ok = s2v(key.substr(0, h), pt) == iv;
    return pt;
}
static const char* kB32 = "ABCDEFGHIJKMNPQRSTUVWXYZ23456789";
string b32(const string& in)
{
    string o;
    unsigned acc = 0;
    int bits = 0;
    for (unsigned char c : in)
    {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 5)
        {
            bits -= 5;
            o.push_back(kB32[(acc >> bits) & 31]);
        }
        acc &= (1u << bits) - 1;
    }
    if (bits)
        o.push_back(kB32[(acc << (5 - bits)) & 31]);
    return o;
}
string unb32(const string& in)
{
    string o;
    unsigned acc = 0;
    int bits = 0;
    for (char c : in)
    {
        const char* p = strchr(kB32, c);
        if (!p || !c)
            return "";
        acc = (acc << 5) | (unsigned)(p - kB32);
        bits += 5;
        if (bits >= 8)
        {
            bits -= 8;
            o.push_back((char)(acc >> bits));
        }
        acc &= (1u << bits) - 1;
    }
    return o;
}
static string unb64(const string& in)
{
    static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    string o;
    unsigned acc = 0;
    int bits = 0;
    for (char c : in)
    {
        auto p = A.find(c);
        if (p == string::npos)
            break;
        acc = (acc << 6) | (unsigned)p;
        bits += 6;
        if (bits >= 8)
        {
            bits -= 8;
            o.push_back((char)(acc >> bits));
        }
        acc &= (1u << bits) - 1;
    }
    return o;
}
static string hex(const string& s, size_t a, size_t b)
{
    string o;
    for (size_t i = a; i < b; ++i)
        o += strf("%02x", (unsigned char)s[i]);
    return o;
}
static string unhex(const string& s)
{
    string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        o.push_back((char)strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return o;
}
template <class T>
static T le(const string& s, size_t off)
{
    T v = 0;
    for (size_t i = 0; i < sizeof(T); ++i)
        v |= (T)(unsigned char)s[off + i] << (8 * i);
    return v;
}

string Fmt::path_of(const string& id) const
{
    if (v.legacy_io)
        return hex(id, 0, 1) + "/" + hex(id, 1, 6) + "/" + hex(id, 6, 32);
    return hex(id, 0, 1) + "/" + hex(id, 1, 32);
}
uint64_t Fmt::ino_of(const string& id) { return le<uint64_t>(id, 0); }
std::vector<string> Fmt::all_ids() const
{
    std::vector<string> out;
    std::function<void(uint64_t, const string&)> rec = [&](uint64_t ino, const string& pre)
    {
        auto* n = d.get(ino);
        for (auto& [name, c] : n->ents)
        {
            auto* i = d.get(c);
            if (name[0] == '.' || name.find(".meta") != string::npos)
                continue;
            if (S_ISDIR(i->mode))
                rec(c, pre + name);
            else if (pre.size() + name.size() == 64)
                out.push_back(unhex(pre + name));
        }
    };
    rec(d.resolve(g_data_dir), "");
    return out;
}
DFile Fmt::full_file(const string& id) const
{
    DFile f;
    string p = g_data_dir + "/" + path_of(id);
    auto *di = d.get(d.resolve(p)), *mi = d.get(d.resolve(p + ".meta"));
    if (!di || !mi)
    {
        f.err = di ? "the meta file is missing" : mi ? "the data file is missing" : "missing";
        return f;
    }
    f.exists = true;
    string keys = expand(key_bytes(v.keyseed, 0), id, v.pad ? 128 : 96);
    string dk = keys.substr(0, 32), mk = keys.substr(32, 32), xk = keys.substr(64, 32);
    if (v.pad)
        f.padding = be_mod(keys.substr(96, 32), v.pad + 1);
    string meta = mi->read(0, mi->size);
    f.mac_ok = meta.empty() || (meta.size() >= 32 && hmac256(mk, id + meta.substr(32)) == meta.substr(0, 32));
    size_t hs = v.store_time ? 80 : 32, unit = v.iv + 16, hdr = 32 + unit + hs;
    string h;
    if (meta.size() >= hdr
        && gcm_open(dk,
                    meta.substr(32, v.iv),
                    id,
                    meta.substr(32 + unit, hs),
                    meta.substr(32 + v.iv, 16),
                    h))
    {
        f.header_ok = true;
        f.mode = le<uint32_t>(h, 0);
        f.uid = le<uint32_t>(h, 4);
        f.gid = le<uint32_t>(h, 8);
        f.nlink = le<uint32_t>(h, 12);
        f.root_page = le<uint32_t>(h, 16);
        f.free_page = le<uint32_t>(h, 20);
        f.nfree = le<uint32_t>(h, 24);
        if (v.store_time)
        {
            timespec* ts[4] = {&f.at, &f.mt, &f.ct, &f.bt};
            for (int i = 0; i < 4; ++i)
            {
                ts[i]->tv_sec = (time_t)le<uint64_t>(h, 28 + 12 * i);
                ts[i]->tv_nsec = le<uint32_t>(h, 36 + 12 * i);
            }
        }
    }
    // Only blocks with something stored for them, and the last one, which needs its meta data.
    f.nblocks = (di->size + v.block - 1) / v.block;
    std::set<uint64_t> todo;
    for (auto& pg : di->pages)
        for (uint64_t b = pg.first * 4096 / v.block; b <= (pg.first * 4096 + 4095) / v.block; ++b)
            todo.insert(b);
    for (auto& pg : mi->pages)
        if (uint64_t z = pg.first * 4096 + 4095; z >= hdr)
            for (uint64_t b = pg.first * 4096 < hdr ? 0 : (pg.first * 4096 - hdr) / unit; b <= (z - hdr) / unit; ++b)
                todo.insert(b);
    if (f.nblocks)
        todo.insert(f.nblocks - 1);
    f.raw.size = di->size;
    for (uint64_t b : todo)
    {
        if (b >= f.nblocks)
            break;
        string ct = di->read(b * v.block, v.block);
        string m = meta.size() > hdr + b * unit ? meta.substr(hdr + b * unit, unit) : "";
        string pt(ct.size(), 0);
        if (m.size() == unit && zeros(m) && zeros(ct))
            continue;
        if (m.size() == unit
                 && gcm_open(dk, m.substr(0, v.iv), id, ct, m.substr(v.iv, 16), pt))
            f.blocks[b] = 0;
        else
        {
            f.blocks[b] = 2;
            pt.assign(ct.size(), 0);
        }
        f.raw.write(b * v.block, pt);
    }
    f.size = f.raw.size <= f.padding ? 0 : f.raw.size - f.padding;
    for (auto& [xn, ct] : di->xattrs)
    {
        if (xn.compare(0, 5, "user.") != 0)
            continue;
        bool ok;
        string name = siv_decrypt(xk, unb64(xn.substr(5)), ok);
        auto it = mi->xattrs.find(xn);
        string pt;
        if (!ok)
            f.xattr_err = "an attribute name is not authentic";
        else if (it == mi->xattrs.end() || it->second.size() != 32)
            f.xattr_err = "attribute " + name + " has no IV and MAC";
        else if (!gcm_open(xk, it->second.substr(0, 16), id + xn, ct, it->second.substr(16), pt))
            f.xattr_err = "attribute " + name + " does not authenticate";
        else
            f.xattrs[name] = pt;
    }
    for (auto& [xn, x] : mi->xattrs)
        if (!di->xattrs.count(xn))
            f.xattr_err = "the IV and MAC of a missing attribute remain";
    return f;
}
string Fmt::full_dir(const DFile& f, std::vector<DEnt>& out) const
{
    string c = f.content();
    if (c.size() % 4096)
        return strf("the directory holds %zu bytes, which is not whole pages", c.size());
    uint32_t np = (uint32_t)(c.size() / 4096);
    std::set<uint32_t> used;
    string bad, prev;
    bool have_prev = false;
    int leaf_depth = -1;
    std::function<void(uint32_t, int)> rec = [&](uint32_t pg, int depth)
    {
        if (!bad.empty())
            return;
        if (pg >= np || !used.insert(pg).second || depth > 32)
        {
            bad = strf("page %u is outside of the file or used twice", pg);
            return;
        }
        string P = c.substr((size_t)pg * 4096, 4096);
        if (le<uint32_t>(P, 0) != 1)
        {
            bad = strf("page %u is part of the tree, but marked free", pg);
            return;
        }
        unsigned nc = le<uint16_t>(P, 4), ne = le<uint16_t>(P, 6);
        if (ne > 13 || (nc && nc != ne + 1))
        {
            bad = strf("page %u has %u entries and %u children", pg, ne, nc);
            return;
        }
        if (pg != f.root_page && ne < 6)
        {
            bad = strf("page %u has only %u entries", pg, ne);
            return;
        }
        if (!nc)
        {
            if (leaf_depth >= 0 && leaf_depth != depth)
                bad = "leaves at different depths";
            leaf_depth = depth;
        }
        size_t off = 8 + 4 * nc;
        for (unsigned i = 0; i <= ne; ++i)
        {
            if (nc)
                rec(le<uint32_t>(P, 8 + 4 * i), depth + 1);
            if (i == ne || !bad.empty())
                break;
            DEnt e;
            e.name = string(P.substr(off, 256).c_str());
            e.id = P.substr(off + 256, 32);
            e.type = le<uint32_t>(P, off + 288);
            off += 292;
            if (!v.ci && !v.uni && have_prev && !(prev < e.name))
                bad = "entries are not in order: '" + show(prev, 40) + "' before '"
                    + show(e.name, 40) + "'";
            prev = e.name;
            have_prev = true;
            out.push_back(e);
        }
    };
    if (f.root_page != 0xffffffffu)
        rec(f.root_page, 0);
    if (!bad.empty())
        return bad;
    uint32_t pg = f.free_page, prevp = 0xffffffffu, n = 0;
    while (pg != 0xffffffffu)
    {
        if (pg >= np || !used.insert(pg).second)
            return strf("free page %u is outside of the file or in use", pg);
        string P = c.substr((size_t)pg * 4096, 4096);
        if (le<uint32_t>(P, 0) != 0 || le<uint32_t>(P, 8) != prevp)
            return strf("free page %u is not linked properly", pg);
        prevp = pg;
        pg = le<uint32_t>(P, 4);
        ++n;
    }
    if (n != f.nfree)
        return strf("%u free pages are linked, the header says %u", n, f.nfree);
    if (used.size() != np)
        return strf("%u pages, of which %zu are in the tree or free", np, used.size());
    return "";
}

DFile Fmt::lite_file(uint64_t ino) const
{
    DFile f;
    auto* n = d.get(ino);
    if (!n || !S_ISREG(n->mode))
    {
        f.err = "missing";
        return f;
    }
    f.exists = true;
    f.mode = n->mode;
    const uint64_t all_size = n->size;
    string all = n->read(0, std::min<uint64_t>(all_size, 1 << 20));
    auto xattrs = [&]
    {
        string xk = key_bytes(v.keyseed, 3);
        for (auto& [xn, val] : n->xattrs)
        {
            if (xn.compare(0, 5, "user.") != 0)
                continue;
            bool ok;
            string name = siv_decrypt(xk, unb64(xn.substr(5)), ok), pt;
            if (!ok)
                f.xattr_err = "an attribute name is not authentic";
            else if (val.size() < v.iv + 16
                     || !gcm_open(xk,
                                  val.substr(0, v.iv),
                                  "",
                                  val.substr(v.iv, val.size() - v.iv - 16),
                                  val.substr(val.size() - 16),
                                  pt))
                f.xattr_err = "attribute " + name + " does not authenticate";
            else
                f.xattrs[name] = pt;
        }
    };
    xattrs();
    if (all.empty())
    {
        f.mac_ok = f.header_ok = true;
        return f;
    }
    if (all.size() < 16)
    {
        f.err = "the header is incomplete";
        return f;
    }
    string id = all.substr(0, 16), key = aes_ecb(key_bytes(v.keyseed, 2), id);
    unsigned pad = v.pad ? be_mod(aes_ecb(key_bytes(v.keyseed, 4), id), v.pad + 1) : 0;
    f.head_padding = pad;
    if (all.size() < 16 + pad)
    {
        f.err = "the padding is incomplete";
        return f;
    }
    f.mac_ok = f.header_ok = true;
    string padding = all.substr(16, pad);
    size_t ub = v.block + v.iv + 16;
    uint64_t first = 16 + pad, tail = (all_size - first) % ub;
    f.nblocks = (all_size - first) / ub + (tail > v.iv + 16);
    f.raw.size = (all_size - first) / ub * v.block + (tail > v.iv + 16 ? tail - v.iv - 16 : 0);
    std::set<uint64_t> todo;
    for (auto& pg : n->pages)
        if (uint64_t z = pg.first * 4096 + 4095; z >= first)
            for (uint64_t b = pg.first * 4096 < first ? 0 : (pg.first * 4096 - first) / ub; b <= (z - first) / ub; ++b)
                todo.insert(b);
    for (uint64_t b : todo)
    {
        if (b >= f.nblocks)
            break;
        string u = n->read(first + b * ub, ub);
        string pt(u.size() - v.iv - 16, 0);
        if (zeros(u))
            continue;
        {
            string aad(4, 0);
            for (int i = 0; i < 4; ++i)
                aad[i] = (char)(b >> (8 * i));
            if (gcm_open(key,
                         u.substr(0, v.iv),
                         aad + padding,
                         u.substr(v.iv, u.size() - v.iv - 16),
                         u.substr(u.size() - 16),
                         pt))
                f.blocks[b] = 0;
            else
            {
                f.blocks[b] = 2;
                pt.assign(u.size() - v.iv - 16, 0);
            }
        }
        f.raw.write(b * v.block, pt);
    }
    f.size = f.raw.size;
    return f;
}
string Fmt::enc_name(const string& name) const
{
    if (v.plain)
        return name;
    string k = key_bytes(v.keyseed, 1);
    if (v.long_threshold > 0 && (int)name.size() > v.long_threshold)
    {
        CryptoPP::BLAKE2b b(B(k), k.size(), nullptr, 0, nullptr, 0, false, 32);
        b.Update(B(name), name.size());
        string dg(32, 0);
        b.TruncatedFinal(B(dg), 32);
        return b32(siv_encrypt(k, dg)) + (v.long_suffix.empty() ? "..." : v.long_suffix);
    }
    return b32(siv_encrypt(k, name));
}
string Fmt::long_cipher(const string& name) const
{
    return b32(siv_encrypt(key_bytes(v.keyseed, 1), name));
}
string Fmt::dec_symlink(const string& t) const
{
    if (v.plain)
        return t;
    string k = key_bytes(v.keyseed, 1);
    bool ok;
    if (v.long_threshold > 0)
    {
        string j;
        for (char c : t)
            if (c != '/')
                j.push_back(c);
        string r = siv_decrypt(k, unb32(j), ok);
        if (!ok)
            throw string("a symlink target does not authenticate");
        return r;
    }
    if (t == ".")
        return "/";
    string out, part;
    for (size_t i = 0; i <= t.size(); ++i)
    {
        if (i < t.size() && t[i] != '/')
        {
            part.push_back(t[i]);
            continue;
        }
        if (!part.empty())
        {
            out += siv_decrypt(k, unb32(part), ok);
            if (!ok)
                throw string("a symlink target does not authenticate");
            part.clear();
        }
        if (i < t.size())
            out.push_back('/');
    }
    return out;
}
static string same_content(const DFile& f, const Node& n)
{
    if (n.lost)
        return "";
    if (f.damaged())
        return "holds a block that does not authenticate";
    if (f.size != n.data.size)
        return strf("is stored with %llu bytes, should have %llu",
                    (unsigned long long)f.size,
                    (unsigned long long)n.data.size);
    std::set<uint64_t> at;    // pages that may hold something else than zeros
    for (auto& pg : n.data.pages)
        at.insert(pg.first * Blob::P);
    for (auto& pg : f.raw.pages)
        for (uint64_t o : {pg.first * Blob::P, pg.first * Blob::P + Blob::P - 1})
            if (o >= f.padding)
                at.insert((o - f.padding) / Blob::P * Blob::P);
    for (uint64_t o : at)
        if (f.raw.read(f.padding + o, std::min(Blob::P, f.size - std::min(o, f.size))) != n.data.read(o, Blob::P))
            return strf("is stored with other content near offset %llu", (unsigned long long)o);
    return "";
}
string Fmt::compare(Model& m, bool times)
{
    string bad;
    std::function<void(const NodeP&, const string&, const string&)> rec;
    auto common = [&](const NodeP& n, const DFile& f, const string& p)
    {
        string w;
        if (n->kind == KF)
            w = same_content(f, *n);
        if (w.empty() && n->kind != KL && v.xattr && (f.xattr_err.size() || f.xattrs != n->xattrs))
            w = f.xattr_err.size() ? f.xattr_err : "is stored with other extended attributes";
        if (!w.empty())
            bad = show(p, 60) + " " + w;
    };
    std::set<Node*> seen;
    if (v.full)
    {
        std::set<string> ids;
        rec = [&](const NodeP& n, const string& id, const string& p)
        {
            if (!bad.empty())
                return;
            ids.insert(id);
            if (!seen.insert(n.get()).second)
                return;
            DFile f = full_file(id);
            string P = show(p, 60);
            if (!f.err.empty())
                bad = P + ": " + f.err;
            else if (!f.mac_ok)
                bad = P + ": the meta file does not match its HMAC";
            else if (!f.header_ok)
                bad = P + ": the header does not authenticate";
            else if ((f.mode & S_IFMT) != (n->kind == KD ? S_IFDIR : n->kind == KF ? S_IFREG : S_IFLNK))
                bad = P + strf(": the header has mode %o", f.mode);
            else if (n->kind == KF && (int)f.nlink != n->nlink)
                bad = P + strf(": the header counts %u links, should be %d", f.nlink, n->nlink);
            else if (!n->attr_uncertain && n->id != 1 && n->kind != KL && (f.mode & 0777) != (n->mode & 0777))
                bad = P + strf(": the header has mode %o, should be %o", f.mode, n->mode & 0777);
            else if (!n->attr_uncertain && n->id != 1 && (f.uid != n->uid || f.gid != n->gid))
                bad = P + strf(": the header has owner %u:%u, should be %u:%u", f.uid, f.gid, n->uid, n->gid);
            else if (times && v.store_time && n->kind == KF && n->mt_exact
                     && (f.mt.tv_sec != n->mt.tv_sec || f.mt.tv_nsec != n->mt.tv_nsec))
                bad = P + ": the header has another mtime";
            if (!bad.empty())
                return;
            common(n, f, p);
            if (n->kind == KL && f.content() != n->target)
                bad = P + ": another symlink target is stored";
            if (n->kind == KD)
            {
                std::vector<DEnt> es;
                string w = f.damaged() ? "a block does not authenticate" : full_dir(f, es);
                if (!w.empty())
                {
                    bad = P + ": " + w;
                    return;
                }
                std::map<string, DEnt> by;
                for (auto& e : es)
                    if (!by.emplace(e.name, e).second)
                        bad = P + ": stores '" + show(e.name, 60) + "' twice";
                if (by.size() != n->ents.size())
                    bad = P + strf(": stores %zu entries, should have %zu", by.size(), n->ents.size());
                for (auto& [c, e] : n->ents)
                {
                    auto it = by.find(e.name);
                    if (it == by.end())
                    {
                        bad = P + ": does not store '" + show(e.name, 60) + "'";
                        return;
                    }
                    uint32_t t = (e.n->kind == KD ? S_IFDIR : e.n->kind == KF ? S_IFREG : S_IFLNK) >> 12;
                    if (it->second.type != t)
                        bad = P + strf(": stores '%s' with type %u", show(e.name, 60).c_str(), it->second.type);
                    rec(e.n, it->second.id, p + "/" + e.name);
                }
            }
        };
        rec(m.root, string(32, 0), "");
        if (bad.empty())
            for (auto& id : all_ids())
                if (!ids.count(id))
                    bad = "stores object " + path_of(id) + ", which nothing refers to";
        return bad;
    }
    std::map<uint64_t, Node*> inos;
    rec = [&](const NodeP& n, const string& disk_path, const string& p)
    {
        if (!bad.empty())
            return;
        string P = show(p, 60);
        uint64_t ino = d.resolve(disk_path);
        auto* i = d.get(ino);
        if (!i)
        {
            bad = P + " is not stored at " + disk_path;
            return;
        }
        uint32_t t = n->kind == KD ? S_IFDIR : n->kind == KF ? S_IFREG : S_IFLNK;
        if ((i->mode & S_IFMT) != t)
        {
            bad = P + " is stored with another type";
            return;
        }
        if (n->kind == KF && seen.insert(n.get()).second)
        {
            DFile f = lite_file(ino);
            if (!f.err.empty())
                bad = P + ": " + f.err;
            else
                common(n, f, p);
        }
        if (n->kind == KL)
        {
            try
            {
                string got = dec_symlink(i->target);
                if (got != n->target)
                    bad = P + ": another symlink target is stored: " + show(got, 60);
            }
            catch (const string& e)
            {
                bad = P + ": " + e;
            }
        }
        if (n->kind != KD)
            return;
        std::map<string, string> longs;    // keyed hash -> stored cipher
        if (i->ents.count(".long_names.db"))
        {
            sqlite3* db = nullptr;
            sqlite3_stmt* st = nullptr;
            if (sqlite3_open_v2((disk_path + "/.long_names.db").c_str(), &db, SQLITE_OPEN_READONLY, nullptr)
                    == SQLITE_OK
                && sqlite3_prepare_v2(
                       db, "select keyed_hash, encrypted_name from encrypted_mappings", -1, &st, nullptr)
                    == SQLITE_OK)
            {
                while (sqlite3_step(st) == SQLITE_ROW)
                    longs[(const char*)sqlite3_column_text(st, 0)]
                        = (const char*)sqlite3_column_text(st, 1);
            }
            else
                bad = P + ": the lookup table cannot be read: " + sqlite3_errmsg(db);
            sqlite3_finalize(st);
            sqlite3_close(db);
        }
        std::set<string> want;
        for (auto& [c, e] : n->ents)
        {
            string en = enc_name(e.name);
            want.insert(en);
            if (!v.plain && v.long_threshold > 0 && (int)e.name.size() > v.long_threshold)
            {
                auto it = longs.find(en);
                if (it == longs.end())
                    bad = P + ": the lookup table has no row for '" + show(e.name, 40) + "'";
                else if (it->second != long_cipher(e.name))
                    bad = P + ": the lookup table has another name for '" + show(e.name, 40) + "'";
                longs.erase(en);
            }
            rec(e.n, disk_path + "/" + en, p + "/" + e.name);
            if (!bad.empty())
                return;
        }
        for (auto& [nm, x] : i->ents)
            if (!want.count(nm) && nm.compare(0, 14, ".long_names.db") != 0 && !(p.empty() && nm[0] == '.'))
                bad = P + ": stores an extra entry " + nm;
        if (!longs.empty() && !n->stale_rows)
            bad = P + strf(": the lookup table has %zu stale rows", longs.size());
    };
    rec(m.root, g_data_dir, "");
    return bad;
}
}    // namespace h
