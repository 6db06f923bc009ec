// Volumes, mounts and the simulated kernel in front of the FUSE callbacks.
#include "h.h"

#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/xattr.h>

namespace h
{
std::string g_data_dir = "/simroot/data";

bool VolCfg::target_ok(const std::string& t) const
{
    auto enc = [](size_t n) { return (n * 8 + 4) / 5; };
    size_t len = t.size();
    if (!full && !plain && long_threshold > 0)
    {
        // encrypted as a whole, then cut into pieces
        size_t n = t.size() + 16;
        len = n / 60 * 97 + (n % 60 ? 1 + enc(n % 60) : 0);
    }
    else if (!full && !plain && t != "/")
    {
        // one component at a time
        len = 0;
        for (size_t i = 0, j; i <= t.size(); i = j + 1, ++len)
        {
            j = std::min(t.find('/', i), t.size());
            if (j - i > 2000)
                return false;
            len += j > i ? enc(j - i + 16) : 0;
        }
        --len;
    }
    return len <= 4095;
}
VolCfg VolCfg::from(const Plan& p)
{
    VolCfg v;
    v.full = p.ci("full");
    v.block = p.ci("block", 4096);
    v.iv = p.ci("iv", v.full ? 32 : 12);
    v.pad = p.ci("pad", 0);
    v.xattr = p.ci("xattr", 1);
    v.verify = p.ci("verify", 1);
    v.readonly = p.ci("ro", 0);
    v.store_time = p.ci("store_time", 0);
    v.legacy_io = p.ci("legacy_io", 0);
    v.ci = p.ci("ci", 0);
    v.uni = p.ci("uni", 0);
    v.plain = p.ci("plain", 0);
    v.fold = p.ci("fold", 0);
    v.nfc = p.ci("nfc", 0);
    v.long_threshold = (int)p.ci("longname", 0);
    v.long_suffix = p.cs("longsuffix");
    v.idle = p.ci("idle", 0);
    v.sens = p.ci("sens") != 0;
    v.uid_override = (int)p.ci("uid_override", -1);
    v.gid_override = (int)p.ci("gid_override", -1);
    v.keyseed = p.seed;
    return v;
}
std::string key_bytes(uint64_t seed, int which)
{
    Rng r(sim::mix64(seed, 0xabc + which));
    std::string k(32, '\0');
    for (auto& c : k)
        c = (char)r.next();
    return k;
}
securefs::DecryptedSecurefsParams VolCfg::params() const
{
    if (given)
        return *given;
    securefs::DecryptedSecurefsParams p;
    p.mutable_size_params()->set_block_size(block);
    p.mutable_size_params()->set_iv_size(iv);
    p.mutable_size_params()->set_max_padding_size(pad);
    if (full)
    {
        auto f = p.mutable_full_format_params();
        f->set_master_key(key_bytes(keyseed, 0));
        f->set_store_time(store_time);
        f->set_legacy_file_table_io(legacy_io);
        f->set_case_insensitive(ci);
        f->set_unicode_normalization_agnostic(uni);
    }
    else
    {
        auto l = p.mutable_lite_format_params();
        l->set_name_key(key_bytes(keyseed, 1));
        l->set_content_key(key_bytes(keyseed, 2));
        l->set_xattr_key(key_bytes(keyseed, 3));
        if (pad)
            l->set_padding_key(key_bytes(keyseed, 4));
        if (long_threshold > 0)
            l->set_long_name_threshold(long_threshold);
        if (!long_suffix.empty())
            l->set_long_name_suffix(long_suffix);
    }
    return p;
}
securefs::MountOptions VolCfg::options() const
{
    securefs::MountOptions o;
    o.set_read_only(readonly);
    o.set_disable_verification(!verify);
    o.set_enable_xattr(xattr);
    o.set_case_fold(fold);
    o.set_unicode_normalize_nfc(nfc);
    o.set_plain_text_names(plain);
    o.set_allow_sensitive_logging(sens);
    o.set_max_idle_seconds(idle);
    if (uid_override >= 0)
        o.set_uid_override(uid_override);
    if (gid_override >= 0)
        o.set_gid_override(gid_override);
    return o;
}

Mount::Mount(const VolCfg& vv) : Mount(vv, vv.params()) {}
Mount::Mount(const VolCfg& vv, const securefs::DecryptedSecurefsParams& p) : v(vv)
{
    root = std::make_shared<securefs::OSService>(g_data_dir);
    ops = securefs::make_fuse_high_level_ops(root, p, v.options());
    fo = securefs::FuseHighLevelOpsBase::build_ops(ops.get());
    set_fuse_context(ops.get(), 0, 0);
    if (fo.init)
    {
        fuse_conn_info ci{};
        ci.proto_major = 7;
        ci.proto_minor = 12;
        fo.init(&ci);
    }
}
Mount::~Mount()
{
    if (fo.destroy)
        fo.destroy(ops.get());
    ops.reset();
}

// libfuse gives no path to requests that carry a file handle when the file system says so.
static const char* hpath(const Mount& m, const Handle& h)
{
    return m.fo.flag_nopath && m.fo.flag_nullpath_ok ? nullptr : h.path.c_str();
}
#define NEED(f) \
    if (!m.fo.f) \
        return -ENOSYS; \
    ctx()

// The kernel refuses attributes without a valid file type (fuse_invalid_attr).
static int valid_attr(int rc, const struct stat* st)
{
    if (rc < 0)
        return rc;
    switch (st->st_mode & S_IFMT)
    {
    case S_IFREG:
    case S_IFDIR:
    case S_IFLNK:
    case S_IFCHR:
    case S_IFBLK:
    case S_IFIFO:
    case S_IFSOCK:
        return rc;
    }
    return -EIO;
}
int Kernel::getattr(const std::string& p, struct stat* st)
{
    NEED(getattr);
    memset(st, 0, sizeof *st);
    int rc = m.fo.getattr(p.c_str(), st);
    if (rc < 0 && parent_of(p) != "/")
    {
        // The kernel resolves one component after the other, so that an ancestor which is missing
        // or is not a directory is found first.
        struct stat ps;
        int prc = getattr(parent_of(p), &ps);
        if (prc < 0)
            return prc;
        if (!S_ISDIR(ps.st_mode))
            return -ENOTDIR;
    }
    return valid_attr(rc, st);
}
int Kernel::fgetattr(Handle& h, struct stat* st)
{
    memset(st, 0, sizeof *st);
    if (!m.fo.fgetattr)
        return getattr(h.path, st);
    ctx();
    return valid_attr(m.fo.fgetattr(hpath(m, h), st, &h.fi), st);
}
uint64_t g_changes = 0;
int Kernel::lookup(const std::string& p, struct stat* st)
{
    if (!cached)
        return getattr(p, st);
    if (epoch != g_changes)
        known.clear();
    epoch = g_changes;
    auto it = known.find(p);
    if (it == known.end())
    {
        int rc = getattr(p, st);
        if (epoch == g_changes && rc != -ENOTCONN)
            known[p] = {rc, *st};
        return rc;
    }
    *st = it->second.second;
    return it->second.first;
}
int Kernel::open(const std::string& p, int flags, uint32_t mode, Handle& h, bool* created)
{
    struct stat st;
    h.path = p;
    h.dir = false;
    h.acc = flags & O_ACCMODE;
    memset(&h.fi, 0, sizeof h.fi);
    if (created)
        *created = false;
    int rc = lookup(p, &st);
    if (rc == -ENOENT)
    {
        if (!(flags & O_CREAT))
            return rc;
        if (parent_of(p) != "/")
        {
            struct stat ps;
            rc = lookup(parent_of(p), &ps);
            if (rc < 0)
                return rc;
            if (!S_ISDIR(ps.st_mode))
                return -ENOTDIR;
        }
        NEED(create);
        h.fi.flags = flags & ~O_NOCTTY;
        rc = m.fo.create(p.c_str(), S_IFREG | mode, &h.fi);
        if (rc == 0 && created)
            *created = true;
        return rc;
    }
    if (rc < 0)
        return rc;
    if ((flags & O_CREAT) && (flags & O_EXCL))
        return -EEXIST;
    if (S_ISDIR(st.st_mode))
        return -EISDIR;
    if (S_ISLNK(st.st_mode))
        return -ELOOP;
    NEED(open);
    h.fi.flags = flags & ~(O_CREAT | O_EXCL | O_NOCTTY);
    return m.fo.open(p.c_str(), &h.fi);
}
int Kernel::flush(Handle& h)
{
    NEED(flush);
    return m.fo.flush(hpath(m, h), &h.fi);
}
int Kernel::release(Handle& h)
{
    NEED(release);
    return m.fo.release(hpath(m, h), &h.fi);
}
int Kernel::close(Handle& h)
{
    int rc = flush(h);
    if (rc == -ENOSYS)
        rc = 0;
    release(h);    // its result is ignored by the kernel
    return rc;
}
int Kernel::read(Handle& h, uint64_t off, size_t len, std::string& out)
{
    NEED(read);
    out.assign(len, '\xEE');
    int rc = m.fo.read(hpath(m, h), out.data(), len, (off_t)off, &h.fi);
    if (rc < 0)
        out.clear();
    else
    {
        if ((size_t)rc > len)
            sim::violation("read-overrun", strf("read of %zu bytes returned %d", len, rc));
        out.resize(rc);
    }
    return rc;
}
int Kernel::write(Handle& h, uint64_t off, const std::string& d)
{
    NEED(write);
    return m.fo.write(hpath(m, h), d.data(), d.size(), (off_t)off, &h.fi);
}
int Kernel::ftruncate(Handle& h, uint64_t len)
{
    NEED(ftruncate);
    return m.fo.ftruncate(hpath(m, h), (off_t)len, &h.fi);
}
int Kernel::fsync(Handle& h, bool ds)
{
    NEED(fsync);
    return m.fo.fsync(hpath(m, h), ds, &h.fi);
}
int Kernel::truncate(const std::string& p, uint64_t len)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    if (S_ISDIR(st.st_mode))
        return -EISDIR;
    if (!S_ISREG(st.st_mode))
        return -EINVAL;
    NEED(truncate);
    return m.fo.truncate(p.c_str(), (off_t)len);
}
static int need_parent(Kernel& k, const std::string& p)
{
    std::string d = parent_of(p);
    if (d == "/")
        return 0;
    struct stat st;
    int rc = k.lookup(d, &st);
    if (rc < 0)
        return rc;
    return S_ISDIR(st.st_mode) ? 0 : -ENOTDIR;
}
int Kernel::mkdir(const std::string& p, uint32_t mode)
{
    if (int rc = need_parent(*this, p))
        return rc;
    struct stat st;
    int rc = lookup(p, &st);
    if (rc == 0)
        return -EEXIST;
    if (rc != -ENOENT)
        return rc;
    NEED(mkdir);
    return m.fo.mkdir(p.c_str(), mode);
}
int Kernel::rmdir(const std::string& p)
{
    struct stat st;
    if (int rc = need_parent(*this, p))
        return rc;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    if (!S_ISDIR(st.st_mode))
        return -ENOTDIR;
    NEED(rmdir);
    return m.fo.rmdir(p.c_str());
}
int Kernel::unlink(const std::string& p)
{
    struct stat st;
    if (int rc = need_parent(*this, p))
        return rc;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    if (S_ISDIR(st.st_mode))
        return -EISDIR;
    NEED(unlink);
    return m.fo.unlink(p.c_str());
}
int Kernel::symlink(const std::string& to, const std::string& p)
{
    if (int rc = need_parent(*this, p))
        return rc;
    struct stat st;
    int rc = lookup(p, &st);
    if (rc == 0)
        return -EEXIST;
    if (rc != -ENOENT)
        return rc;
    NEED(symlink);
    return m.fo.symlink(to.c_str(), p.c_str());
}
int Kernel::readlink(const std::string& p, std::string& out)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    if (!S_ISLNK(st.st_mode))
        return -EINVAL;
    NEED(readlink);
    char buf[4097];
    memset(buf, 0x7e, sizeof buf);
    rc = m.fo.readlink(p.c_str(), buf, sizeof buf);
    if (rc == 0)
    {
        if (!memchr(buf, 0, sizeof buf))
            sim::violation("readlink-unterminated", p);
        out = buf;
    }
    return rc;
}
int Kernel::link(const std::string& a, const std::string& b)
{
    struct stat st;
    int rc = lookup(a, &st);
    if (rc < 0)
        return rc;
    if (S_ISDIR(st.st_mode))
        return -EPERM;
    if ((rc = need_parent(*this, b)))
        return rc;
    struct stat st2;
    rc = lookup(b, &st2);
    if (rc == 0)
        return -EEXIST;
    if (rc != -ENOENT)
        return rc;
    NEED(link);
    return m.fo.link(a.c_str(), b.c_str());
}
int Kernel::rename(const std::string& a, const std::string& b)
{
    struct stat sa, sb;
    int rc = need_parent(*this, a);
    if (rc)
        return rc;
    rc = lookup(a, &sa);
    if (rc < 0)
        return rc;
    if ((rc = need_parent(*this, b)))
        return rc;
    int rb = lookup(b, &sb);
    if (rb != 0 && rb != -ENOENT)
        return rb;
    if (S_ISDIR(sa.st_mode) && b.size() > a.size() && b.compare(0, a.size() + 1, a + "/") == 0)
        return -EINVAL;
    if (a.size() > b.size() && a.compare(0, b.size() + 1, b + "/") == 0)
        return -ENOTEMPTY;
    if (rb == 0 && a != b)
    {
        if (S_ISDIR(sa.st_mode) && !S_ISDIR(sb.st_mode))
            return -ENOTDIR;
        if (!S_ISDIR(sa.st_mode) && S_ISDIR(sb.st_mode))
            return -EISDIR;
    }
    if (a == b)
        return 0;
    NEED(rename);
    return m.fo.rename(a.c_str(), b.c_str());
}
int Kernel::chmod(const std::string& p, uint32_t mode)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(chmod);
    return m.fo.chmod(p.c_str(), (st.st_mode & S_IFMT) | mode);
}
int Kernel::chown(const std::string& p, uint32_t u, uint32_t g)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(chown);
    return m.fo.chown(p.c_str(), u, g);
}
int Kernel::utimens(const std::string& p, const timespec* ts)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(utimens);
    return m.fo.utimens(p.c_str(), ts);
}
int Kernel::opendir(const std::string& p, Handle& h)
{
    struct stat st;
    h.path = p;
    h.dir = true;
    memset(&h.fi, 0, sizeof h.fi);
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    if (!S_ISDIR(st.st_mode))
        return -ENOTDIR;
    NEED(opendir);
    return m.fo.opendir(p.c_str(), &h.fi);
}
static int fill(void* b, const char* name, const struct stat* st, off_t)
{
    static_cast<std::vector<DirEnt>*>(b)->push_back(
        {name, st ? (uint32_t)(st->st_mode & S_IFMT) : 0, st ? (uint64_t)st->st_ino : 0});
    return 0;
}
int Kernel::readdir(Handle& h, std::vector<DirEnt>& out)
{
    NEED(readdir);
    out.clear();
    return m.fo.readdir(hpath(m, h), &out, fill, 0, &h.fi);
}
int Kernel::releasedir(Handle& h)
{
    NEED(releasedir);
    return m.fo.releasedir(hpath(m, h), &h.fi);
}
int Kernel::list(const std::string& p, std::vector<DirEnt>& out)
{
    Handle h;
    int rc = opendir(p, h);
    if (rc < 0)
        return rc;
    rc = readdir(h, out);
    releasedir(h);
    return rc;
}
int Kernel::setxattr(const std::string& p, const std::string& n, const std::string& v, int flags)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(setxattr);
    static const char dummy = 0;
    return m.fo.setxattr(p.c_str(), n.c_str(), v.empty() ? &dummy : v.data(), v.size(), flags);
}
int Kernel::getxattr(const std::string& p, const std::string& n, std::string& out, int64_t bufsize)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(getxattr);
    if (bufsize < 0)
    {
        rc = m.fo.getxattr(p.c_str(), n.c_str(), nullptr, 0);
        if (rc < 0)
            return rc;
        bufsize = rc;
        if (bufsize == 0)
        {
            out.clear();
            return 0;
        }
    }
    // guard bytes detect an overrun of the caller's buffer
    std::vector<char> buf(bufsize + 64, '\x5a');
    rc = m.fo.getxattr(p.c_str(), n.c_str(), buf.data(), bufsize);
    for (size_t i = bufsize; i < buf.size(); ++i)
        if (buf[i] != '\x5a')
            sim::violation("xattr-buffer-overrun",
                           strf("getxattr wrote past its %lld byte buffer", (long long)bufsize));
    if (rc > bufsize)
        return -ERANGE;    // libfuse passes this on as an error
    if (rc >= 0)
        out.assign(buf.data(), rc);
    return rc;
}
int Kernel::listxattr(const std::string& p, std::set<std::string>& out, int64_t bufsize)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(listxattr);
    out.clear();
    if (bufsize < 0)
    {
        rc = m.fo.listxattr(p.c_str(), nullptr, 0);
        if (rc <= 0)
            return rc;
        bufsize = rc;
    }
    std::vector<char> buf(bufsize + 64, '\x5a');
    rc = m.fo.listxattr(p.c_str(), buf.data(), bufsize);
    for (size_t i = bufsize; i < buf.size(); ++i)
        if (buf[i] != '\x5a')
            sim::violation("xattr-buffer-overrun",
                           strf("listxattr wrote past its %lld byte buffer", (long long)bufsize));
    if (rc > bufsize)
        return -ERANGE;
    if (rc > 0)
    {
        size_t i = 0;
        while (i < (size_t)rc)
        {
            size_t j = i;
            while (j < (size_t)rc && buf[j])
                ++j;
            if (j == (size_t)rc)
                sim::violation("listxattr-unterminated", p);
            if (!out.insert(std::string(&buf[i], j - i)).second)
                sim::violation("listxattr-duplicate", std::string(&buf[i], j - i));
            i = j + 1;
        }
    }
    return rc;
}
int Kernel::removexattr(const std::string& p, const std::string& n)
{
    struct stat st;
    int rc = lookup(p, &st);
    if (rc < 0)
        return rc;
    NEED(removexattr);
    return m.fo.removexattr(p.c_str(), n.c_str());
}
int Kernel::statfs(struct statvfs* s)
{
    NEED(statfs);
    memset(s, 0, sizeof *s);
    return m.fo.statfs("/", s);
}
int Kernel::read_all(const std::string& p, Blob& out, size_t chunk)
{
    Handle h;
    out = Blob{};
    int rc = open(p, O_RDONLY, 0, h);
    if (rc < 0)
        return rc;
    uint64_t off = 0;
    for (;;)
    {
        std::string s;
        rc = read(h, off, chunk, s);
        if (rc < 0)
            break;
        if (rc == 0)
            break;
        out.write(off, s);
        off += rc;
    }
    int rc2 = close(h);
    return rc < 0 ? rc : rc2 < 0 ? rc2 : 0;
}
}    // namespace h
