// Core of the deterministic simulator: PRNG, clock, scheduler, simulated disk, fault plan, results.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <sys/stat.h>
#include <sys/types.h>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed ^ 0x9E3779B97F4A7C15ull) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool pct(unsigned p) { return below(100) < p; }
    template <class C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
    template <class T>
    T oneof(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
};
uint64_t mix64(uint64_t a, uint64_t b);
uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ull);

// ---------------------------------------------------------------- results
// Shared between the run (child) and the driver (parent).
enum
{
    N_CLS = 32,
    N_PROBE = 64
};
struct RunResult
{
    volatile int status;    // 0 = not finished, 1 = ok, 2 = violation, 3 = harness error
    char tag[160];
    char msg[6000];
    uint64_t trace_hash;
    uint64_t sched_hash;
    uint64_t steps, syscalls, switches;
    int64_t sim_ns;
    uint64_t faults_fired[N_CLS];
    uint64_t shorts_fired, crashes_proc, crashes_power, torn, tampers, clock_jumps;
    uint64_t remounts, ops, ops_failed;
    struct
    {
        char name[40];
        uint64_t n;
    } probes[N_PROBE];
    char known[512];    // known findings seen, '\n' separated
    uint32_t sched_len, fault_len;
    // serialized deviations chosen during generation (op,step,to)
    struct
    {
        int32_t op;
        uint32_t step;
        int32_t to;
    } sched[4000];
    char extra[4000];    // property-specific sample text
};
extern RunResult* R;    // never null in a run

[[noreturn]] void violation(const std::string& tag, const std::string& msg);
[[noreturn]] void harness_error(const std::string& msg);
[[noreturn]] void finish_ok();
void probe(const char* name);    // counts how often a rare situation was reached
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace;
void trace_mix(uint64_t v);

// ---------------------------------------------------------------- fault classes
enum Cls
{
    C_OPEN,
    C_READ,
    C_WRITE,
    C_TRUNC,
    C_FSYNC,
    C_STAT,
    C_UNLINK,
    C_MKDIR,
    C_RMDIR,
    C_RENAME,
    C_LINK,
    C_SYMLINK,
    C_READLINK,
    C_CHMOD,
    C_CHOWN,
    C_UTIMENS,
    C_OPENDIR,
    C_READDIR,
    C_XATTR,
    C_FLOCK,
    C_STATFS,
    C_RANDOM,
    C_LOCK,    // posix fcntl locks
    C_OTHER,
    C_COUNT
};
extern const char* const kClsName[C_COUNT];
int cls_from_name(std::string_view);

struct Fault
{
    int op = 0;
    int cls = 0;
    int nth = 1;         // 1-based occurrence within the op
    int count = 1;       // how many consecutive occurrences fail
    int err = 0;         // errno; 0 with shortlen >= 0 means short transfer
    int64_t shortlen = -1;
    bool fired = false;
};
struct SchedDev
{
    int op;
    uint32_t step;
    int to;
};
struct CrashSpec
{
    int op = 0;
    int nth = 1;       // after the nth mutating syscall of the op (0 = before the op)
    bool power = false;
    int64_t torn = -1;    // if the nth is a write: how many of its bytes made it
    uint64_t seed = 0;
    bool fired = false;
};

struct RunConfig
{
    uint64_t seed = 1;    // entropy seed (for /dev/urandom and hash salts)
    std::vector<Fault> faults;
    std::vector<SchedDev> devs;
    std::vector<CrashSpec> crashes;
    bool generate_sched = false;
    uint64_t sched_seed = 0;
    unsigned preempt_per_mille = 0;    // probability of preemption per yield point
    uint64_t max_steps = 5000000;
    uint64_t disk_capacity = ~0ull;
    bool writer_priority = true;
    unsigned short_io_per_mille = 0;    // (seeded) short reads, legal at any time
    unsigned eintr_per_mille = 0;
    uint64_t io_seed = 0;
};
extern RunConfig cfg;

// ---------------------------------------------------------------- clock
int64_t now_ns();
void advance_ns(int64_t d);
extern int64_t g_mono_offset;

// ---------------------------------------------------------------- scheduler
void sched_init_main();
int self_id();
int spawn(const std::function<void()>& fn);    // new simulated thread, runnable
void join(int tid);
void begin_op(int op);
void end_op();
int cur_op();
void yield(int kind = 0);
void block_on(const void* key, int64_t deadline_ns = INT64_MAX);    // returns after wake or deadline
void wake_all(const void* key);
void sleep_until(int64_t ns);
uint64_t steps();
int live_threads();
struct NoYield
{
    NoYield();
    ~NoYield();
};
// happens-before hooks (used by the race detector build)
void hb_acquire(const void* obj);
void hb_release(const void* obj);

// ---------------------------------------------------------------- disk
struct Page
{
    uint8_t b[4096];
};
struct Inode
{
    uint64_t ino = 0;
    uint32_t mode = 0, uid = 0, gid = 0, nlink = 0;
    uint64_t size = 0;
    std::vector<std::shared_ptr<Page>> pages;
    std::map<std::string, uint64_t> ents;
    std::string target;
    std::map<std::string, std::string> xattrs;
    timespec at{}, mt{}, ct{};
    uint64_t parent = 0;
    std::string read(uint64_t off, uint64_t len) const;
    void write(uint64_t off, const void* p, uint64_t len);
    void truncate(uint64_t n);
};
struct Mut    // one atomic mutation of the disk, as it would be journalled
{
    enum K
    {
        CREATE,    // ino, name in parent a, mode...
        LINK,
        UNLINK,    // parent a, name
        RENAME,    // a/name -> b/name2
        WRITE,
        TRUNC,
        ATTR,     // mode/uid/gid/times
        XSET,
        XDEL
    } k;
    uint64_t ino = 0, a = 0, b = 0, off = 0;
    std::string name, name2, data;
    uint32_t mode = 0, uid = 0, gid = 0;
    int what = 0;    // ATTR: 1 mode 2 own 4 atime 8 mtime
    timespec t{}, t2{}, now{};
};
struct Disk
{
    std::map<uint64_t, std::shared_ptr<Inode>> inodes;
    uint64_t next_ino = 2;
    std::shared_ptr<Disk> clone() const;
    Inode* get(uint64_t i) const
    {
        auto it = inodes.find(i);
        return it == inodes.end() ? nullptr : it->second.get();
    }
    uint64_t used_bytes() const;
    void apply(const Mut& m);
    void drop_orphans();
    uint64_t resolve(std::string_view path) const;    // no symlink following; 0 = none
    std::string dump() const;
};
std::shared_ptr<Disk> fresh_disk();    // "/" with "/simroot"
extern std::shared_ptr<Disk> disk;
void install_disk(std::shared_ptr<Disk> d);    // forgets fds, locks and the journal
void journal_enable(bool on);                   // for power-loss crashes
size_t open_sim_fds();
// Crash bookkeeping
bool crash_fired();
std::shared_ptr<Disk> take_crash_image(bool* was_power, int* op);    // resets
void force_crash_now(const CrashSpec& c);
extern int g_pid;
// observers at the storage seam: called for each completed write on an inode
extern std::function<void(const Inode&, uint64_t off, std::string_view data)> g_on_write;
extern std::function<void(int cls, const std::string& path)> g_on_mutation;
uint64_t mutation_count();
extern bool g_io_faults_enabled;
extern uint64_t g_random_bytes_drawn;

constexpr const char* kRoot = "/simroot";
}    // namespace sim
