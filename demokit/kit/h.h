// Harness: plans, reference model, the simulated kernel in front of the FUSE callbacks, engines.
#pragma once
#include "sim.h"

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "fuse_high_level_ops_base.h"
#include "internal_mount.h"
#include "params.pb.h"
#include "platform.h"

namespace h
{
using sim::Rng;
using sim::strf;

// ---------------------------------------------------------------- plan
struct Op
{
    int id = 0, thr = 0;
    std::string k;          // kind
    std::string p, q, s;    // paths, string argument
    int h = -1;             // handle slot
    int64_t off = 0, len = 0;
    uint32_t flags = 0, mode = 0;
    uint64_t ds = 0;    // data seed
    int64_t a = 0, b = 0;
    std::string str() const;
};
struct Plan
{
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, std::string> c;
    std::vector<Op> ops;
    std::vector<sim::Fault> faults;
    std::vector<sim::CrashSpec> crashes;
    std::vector<sim::SchedDev> devs;
    int64_t ci(const std::string& k, int64_t d = 0) const
    {
        auto it = c.find(k);
        return it == c.end() ? d : strtoll(it->second.c_str(), nullptr, 0);
    }
    std::string cs(const std::string& k, const std::string& d = "") const
    {
        auto it = c.find(k);
        return it == c.end() ? d : it->second;
    }
    void set(const std::string& k, int64_t v) { c[k] = std::to_string(v); }
    void set(const std::string& k, const std::string& v) { c[k] = v; }
    Op& add(const std::string& kind)
    {
        Op o;
        o.id = ops.empty() ? 1 : ops.back().id + 1;
        o.k = kind;
        ops.push_back(o);
        return ops.back();
    }
    std::string text() const;
    static Plan parse(const std::string& text);
};
std::string esc(const std::string&);
std::string unesc(const std::string&);
std::string gen_data(uint64_t ds, size_t len);
std::string parent_of(const std::string& p);
std::string base_of(const std::string& p);
std::string show(const std::string&, size_t max = 24);    // hex/ascii preview

// ---------------------------------------------------------------- sparse blob
struct Blob
{
    static constexpr uint64_t P = 4096;
    uint64_t size = 0;
    std::map<uint64_t, std::string> pages;
    std::string read(uint64_t off, uint64_t len) const;
    void write(uint64_t off, const std::string& d);
    void truncate(uint64_t n);
    uint8_t at(uint64_t i) const
    {
        if (i >= size)
            return 0;
        auto it = pages.find(i / P);
        return it == pages.end() ? 0 : (uint8_t)it->second[i % P];
    }
    bool operator==(const Blob& o) const;
};

// ---------------------------------------------------------------- reference model
enum Kind
{
    KF,
    KD,
    KL
};
struct Node
{
    int id = 0;
    Kind kind = KF;
    uint32_t mode = 0, uid = 0, gid = 0;
    int nlink = 1;
    Blob data;
    std::string target;
    struct Ent
    {
        std::string name;
        std::shared_ptr<Node> n;
    };
    std::map<std::string, Ent> ents;    // canonical name -> entry
    std::map<std::string, std::string> xattrs;
    // times: exact when known; otherwise a [lo,hi] range
    bool mt_exact = false, at_exact = false;
    timespec mt{}, at{};
    int64_t mt_lo = -1, mt_hi = -1;
    uint64_t ino = 0;           // observed
    int opens = 0;              // harness handles
    bool lost = false;          // content not required to be readable (damaged by an allowed fault)
    std::vector<Blob> alts;     // other contents every byte may come from (in-flight modifications)
    bool unflushed = false;     // modified through an open handle since the last flush
    Blob durable;               // content at the last successful fsync (power-loss property)
    bool has_durable = false;
    std::vector<Blob> since_durable;    // contents since then
    bool xattr_uncertain = false, attr_uncertain = false;
};
using NodeP = std::shared_ptr<Node>;
struct Model
{
    NodeP root;
    int next_id = 2;
    bool full = false, ci_names = false, nfc_names = false, case_preserving = true;
    uint32_t uid = 0, gid = 0;
    std::string canon(const std::string& name) const;
    std::string stored(const std::string& name) const;    // what readdir must show
    NodeP find(const std::string& path) const;
    int lookup_err(const std::string& path) const;    // ENOENT or ENOTDIR for a missing object
    Node::Ent* find_ent(const std::string& path) const;
    NodeP parent(const std::string& path) const;
    NodeP mk(Kind k, uint32_t mode);
    // Each returns 0 or an errno.
    int create(const std::string& p, Kind k, uint32_t mode, const std::string& target = "");
    int unlink(const std::string& p);
    int rmdir(const std::string& p);
    int rename(const std::string& a, const std::string& b);
    int link(const std::string& a, const std::string& b);
    // deep copy; handle nodes passed in are remapped
    Model clone(std::map<Node*, NodeP>* remap = nullptr) const;
    void walk(const std::function<void(const std::string&, const NodeP&)>& f) const;
    std::string dump() const;
};

// ---------------------------------------------------------------- volume + mount + kernel
struct VolCfg
{
    bool full = false;
    unsigned block = 4096, iv = 12, pad = 0;
    bool xattr = true, verify = true, readonly = false;
    // full
    bool store_time = false, legacy_io = false, ci = false, uni = false;
    // lite
    bool plain = false, fold = false, nfc = false;
    int long_threshold = 0;    // 0 = legacy translator
    std::string long_suffix;
    int64_t idle = 0;
    int uid_override = -1, gid_override = -1;
    uint64_t keyseed = 1;
    bool fixed_keys = true;
    static VolCfg from(const Plan& p);
    void to(Plan& p) const;
    securefs::DecryptedSecurefsParams params() const;
    securefs::MountOptions options() const;
};
extern std::string g_data_dir;    // "/simroot/data"

void set_fuse_context(void* private_data, uint32_t uid, uint32_t gid);

struct Mount
{
    VolCfg v;
    std::shared_ptr<securefs::OSService> root;
    std::shared_ptr<securefs::FuseHighLevelOpsBase> ops;
    fuse_operations fo{};
    explicit Mount(const VolCfg& v);
    Mount(const VolCfg& v, const securefs::DecryptedSecurefsParams& p);
    ~Mount();
};
struct DirEnt
{
    std::string name;
    uint32_t type;
    uint64_t ino;
};
struct Handle
{
    fuse_file_info fi{};
    bool dir = false;
    std::string path;
    int acc = 0;
    NodeP node;
};
// What the Linux kernel does before it hands a request to the FUSE daemon.
struct Kernel
{
    Mount& m;
    uint32_t uid = 1000, gid = 1000;
    explicit Kernel(Mount& mm) : m(mm) {}
    void ctx() { set_fuse_context(m.ops.get(), uid, gid); }
    int getattr(const std::string& p, struct stat* st);
    int fgetattr(Handle& h, struct stat* st);
    int open(const std::string& p, int flags, uint32_t mode, Handle& h, bool* created = nullptr);
    int close(Handle& h);    // flush + release
    int release(Handle& h);
    int flush(Handle& h);
    int read(Handle& h, uint64_t off, size_t len, std::string& out);
    int write(Handle& h, uint64_t off, const std::string& d);
    int ftruncate(Handle& h, uint64_t len);
    int fsync(Handle& h, bool datasync);
    int truncate(const std::string& p, uint64_t len);
    int mkdir(const std::string& p, uint32_t mode);
    int rmdir(const std::string& p);
    int unlink(const std::string& p);
    int symlink(const std::string& to, const std::string& p);
    int readlink(const std::string& p, std::string& out);
    int link(const std::string& a, const std::string& b);
    int rename(const std::string& a, const std::string& b);
    int chmod(const std::string& p, uint32_t mode);
    int chown(const std::string& p, uint32_t u, uint32_t g);
    int utimens(const std::string& p, const timespec* ts);
    int opendir(const std::string& p, Handle& h);
    int readdir(Handle& h, std::vector<DirEnt>& out);
    int releasedir(Handle& h);
    int list(const std::string& p, std::vector<DirEnt>& out);    // opendir+readdir+releasedir
    int setxattr(const std::string& p, const std::string& n, const std::string& v, int flags);
    // bufsize < 0: probe the size first
    int getxattr(const std::string& p, const std::string& n, std::string& out, int64_t bufsize);
    int listxattr(const std::string& p, std::set<std::string>& out, int64_t bufsize);
    int removexattr(const std::string& p, const std::string& n);
    int statfs(struct statvfs* s);
    int read_all(const std::string& p, Blob& out, size_t chunk = 1 << 17);
};

// Effect of one operation on the model alone. hs: slot -> (node, access mode; -1 = directory).
using HandleMap = std::map<int, std::pair<NodeP, int>>;
int model_apply(Model& m, const VolCfg& v, HandleMap& hs, const Op& op);

// ---------------------------------------------------------------- property registry
struct Prop
{
    const char* id;
    std::function<Plan(uint64_t seed, bool thorough)> gen;
    std::function<void(Plan&)> run;
    const char* rule;
    int need = 0;    // what makes a run non-trivial: 0 operations, 1 a fired fault, 2 task switches
};
const std::vector<Prop>& props();
const Prop* find_prop(const std::string& id);

// ---------------------------------------------------------------- engine (sequential histories)
struct Engine
{
    Plan& plan;
    VolCfg v;
    Model model;
    std::unique_ptr<Mount> mnt;
    std::unique_ptr<Kernel> k;
    std::map<int, Handle> hs;
    bool uncertain = false;
    explicit Engine(Plan& p);
    void init_volume();
    void mount();
    void unmount();    // closes all handles first
    // Executes one op against the real code and the model; reports violations.
    void exec(const Op& op);
    void verify_all(const char* when);
    void check_storage();
    std::string compare_tree(Model& m, bool content, bool full_relaxed = false);
    void fail(const Op& op, const std::string& tag, const std::string& msg);
};
}    // namespace h
