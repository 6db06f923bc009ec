// The life of a mount (M01, I01): the real `mount` command with its worker threads, signals, idle
// timer and `unmount` command, stopped at arbitrary points.
#include "life.h"
#include "log.h"

#include "crash.h"
#include "fmt.h"
#include "gen.h"

#include "commands.h"
#include "lock_enabled.h"
#include "logger.h"
#include "params_io.h"
#include "platform.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <unistd.h>

namespace h
{
using std::string;
namespace
{
    // names of the requests that change something
    thread_local int tl_changed = 0;

    template <auto MP>
    struct Tr;
    template <class... A, int (*fuse_operations::*MP)(A...)>
    struct Tr<MP>
    {
        static int call(A... a)
        {
            auto s = g_sess;
            if (!s)
                return -ENOTCONN;
            Req r;
            r.run = [&](const char*) { return (s->op.*MP)(a...); };
            return submit(*s, r);
        }
        static int change(A... a)
        {
            int rc = call(a...);
            ++g_changes;
            if (rc >= 0)
                ++tl_changed;
            return rc;
        }
    };
    int tr_write(const char* p, const char* b, size_t n, off_t o, fuse_file_info* fi)
    {
        auto s = g_sess;
        if (!s)
            return -ENOTCONN;
        if (n > (1 << 17))
            return -EINVAL;
        Req r;
        r.payload.assign(b, n);
        r.run = [&](const char* pl) { return s->op.write(p, pl, n, o, fi); };
        int rc = submit(*s, r);
        ++g_changes;
        if (rc >= 0)
            ++tl_changed;
        return rc;
    }
    fuse_operations trampolines(const fuse_operations& o)
    {
        fuse_operations f{};
#define T(x) if (o.x) f.x = &Tr<&fuse_operations::x>::call
#define C(x) if (o.x) f.x = &Tr<&fuse_operations::x>::change
        T(getattr); T(readlink); C(mkdir); C(unlink); C(rmdir); C(symlink); C(rename); C(link);
        C(chmod); C(chown); C(truncate); C(open); T(read); T(statfs); T(flush); T(release);
        T(fsync); C(setxattr); T(getxattr); T(listxattr); C(removexattr); T(opendir); T(readdir);
        T(releasedir); T(fsyncdir); T(access); C(create); C(ftruncate); T(fgetattr); C(utimens);
        T(ioctl);
#undef T
#undef C
        if (o.write)
            f.write = tr_write;
        f.flag_nullpath_ok = o.flag_nullpath_ok;
        f.flag_nopath = o.flag_nopath;
        f.flag_utime_omit_ok = o.flag_utime_omit_ok;
        return f;
    }
    struct MountFailed
    {
        int rc;
    };
    const int kMountOp = 900000;    // the system calls of the mount command
    const int kParentOp = 900001;    // of the one that only starts another process
    const int kMountTry = 900002, kParentTry = 900003;    // the same, of an attempt that meets faults
    bool g_trying = false;
    int g_kill_child = 0;    // the process in the background meets this signal before it has mounted
    const int kParent = 888, kChild = 889;
    const char* kMnt = "/simroot/mnt";
    const char* kConf = "/simroot/keys/config";
    const char* kPid = "/simroot/pid";

    int command(std::vector<string> a)
    {
        a.insert(a.begin(), "securefs");
        std::vector<const char*> v;
        for (auto& s : a)
            v.push_back(s.c_str());
        v.push_back(nullptr);
        return securefs::commands_main((int)a.size(), v.data());
    }
    // What is global in a process.
    std::map<int, std::pair<securefs::Logger*, bool>> g_processes;
    void on_process(int from, int to)
    {
        sim::NoYield ny;
        g_processes[from] = {securefs::global_logger.release(), securefs::is_lock_enabled()};
        auto it = g_processes.find(to);
        if (it == g_processes.end())
            it = g_processes.insert({to, {securefs::Logger::create_stderr_logger().release(), true}}).first;
        securefs::global_logger.reset(it->second.first);
        securefs::set_lock_enabled(it->second.second);
    }
    struct LifeMount : Mount
    {
        Plan& plan;
        int tid = -1;
        bool done = false, collected = false;
        int rc = 0;
        int64_t done_at = 0;
        int want_rc = 0;             // 1: must not be 0
        bool bg = false, parent_done = false;
        int parent = -1, parent_rc = 0, killer = -1;
        int64_t parent_done_at = 0, up_at = 0, bg_slack = 20 * 1000000000ll;
        std::vector<int> noise;
        bool quiet = false;
        LifeMount(const VolCfg& vv, Plan& p) : Mount(vv, Empty{}), plan(p)
        {
            g_sess = nullptr;
            std::vector<string> a = {"mount", "--pass", kMountPassword, "--config", kConf};
            auto add = [&](std::initializer_list<string> l) { a.insert(a.end(), l); };
            if (!v.verify)
                add({"--insecure"});
            if (!v.xattr)
                add({"--noxattr"});
            if (v.plain)
                add({"--plain-text-names"});
            if (v.fold || v.nfc)
                add({"--normalization", v.fold && v.nfc ? "casefold+nfc" : v.fold ? "casefold" : "nfc"});
            if (v.uid_override != -1)
                add({"--uid-override", std::to_string(v.uid_override)});
            if (v.gid_override != -1)
                add({"--gid-override", std::to_string(v.gid_override)});
            if (v.idle)
                add({"--max-idle-seconds", std::to_string(v.idle)});
            if (plan.ci("single"))
                add({"--single"});
            if (plan.ci("noflock"))
                add({"--noflock"});
            if (plan.cs("logfd") != "")
                add({"--log", "/proc/self/fd/" + plan.cs("logfd"), "--trace"});
            log_args(plan, a);
            bg = plan.ci("bg") != 0;
            if (bg)
                add({"--background"});
            add({g_data_dir, kMnt});
            if (bg)
                start_parent(a);
            else
                start(a);
            while (!done && !g_sess)
                sim::block_on(&g_sess);
            if (!done)
            {
                auto s = g_sess;
                fo = trampolines(s->op);
                Req r;
                r.run = [s](const char*)
                {
                    fuse_conn_info ci{};
                    ci.proto_major = 7;
                    ci.proto_minor = 12;
                    if (s->op.init)
                        s->user = s->op.init(&ci);
                    s->inited = true;
                    sim::wake_all(s);
                    return 0;
                };
                if (submit(*s, r) == 0)
                {
                    up_at = sim::now_ns();
                    for (auto& f : plan.faults)
                        if (f.err < 0)
                            bg_slack += f.shortlen;    // a stalled disk
                    start_noise();
                    return;
                }
            }
            collect();
            throw MountFailed{rc};
        }
        void start(const std::vector<string>& a)
        {
            tid = sim::spawn(
                [this, a]
                {
                    sim::begin_op(g_trying ? kMountTry : kMountOp);
                    rc = command(a);
                    sim::end_op();
                    done = true;
                    done_at = sim::now_ns();
                    sim::trace("mount command returned %d", rc);
                    if (bg)
                        sim::child_exits(rc);
                    sim::wake_all(this);
                    sim::wake_all(&g_sess);
                });
        }
        // `mount --background`: the command starts another process and returns once that serves.
        void start_parent(const std::vector<string>& a)
        {
            sim::g_on_spawn = [this](const string& file, const std::vector<string>& args)
            {
                if (tid >= 0)
                    sim::violation("background", "two processes are started to serve one mount");
                for (auto& x : args)
                {
                    bool key = x.find(kMountPassword) != x.npos;
                    for (int i = 0; i < 5; ++i)
                        key |= x.find(key_bytes(v.keyseed, i).substr(0, 16)) != x.npos;
                    if (key)
                        sim::violation("background", "the arguments of the process that serves contain secrets");
                }
                if (file != "securefs" || args.empty())
                    sim::violation("background", "the program started to serve is " + file);
                if (g_kill_child)
                {
                    killer = sim::spawn(
                        [this]
                        {
                            sim::sleep_until(sim::now_ns() + plan.ci("bgkillat"));
                            sim::probe("the process in the background is killed");
                            sim::child_exits(0, g_kill_child);
                        });
                    return kChild;
                }
                start(std::vector<string>(args.begin() + 1, args.end()));
                return kChild;
            };
            parent = sim::spawn(
                [this, a]
                {
                    sim::become(kParent);
                    sim::begin_op(g_trying ? kParentTry : kParentOp);
                    parent_rc = command(a);
                    sim::end_op();
                    sim::become(0);
                    parent_done = true;
                    parent_done_at = sim::now_ns();
                    sim::trace("the command in the foreground returned %d", parent_rc);
                    check_parent();
                    if (tid < 0)
                    {
                        rc = parent_rc;
                        done = true;
                        done_at = sim::now_ns();
                    }
                    sim::wake_all(this);
                    sim::wake_all(&g_sess);
                });
        }
        void check_parent()
        {
            auto s = g_sess;
            if (parent_rc == 0)
            {
                if (tid < 0 || !s || !s->inited)
                    sim::violation("background", "the mount command returns 0 and nothing is mounted");
                if (done && parent_done_at - done_at > 20000000)
                    sim::violation("background",
                                   "the mount command returns 0 though the process it started has ended before");
                sim::probe("mounted in the background");
                return;
            }
            if (tid >= 0 && !done)
                sim::violation("background",
                               strf("the mount command returns %d though the process it started serves", parent_rc));
            if (tid >= 0 && ((rc & 0xff) ? parent_rc != (rc & 0xff) : parent_rc != -1))
                sim::violation("background",
                               strf("the mount command returns %d, the process it started returned %d", parent_rc, rc));
            sim::probe("mounting in the background failed");
        }
        void start_noise()
        {
            for (int i = 0; i < (int)plan.ci("noise"); ++i)
            {
                noise.push_back(sim::spawn(
                    [this, i]
                    {
                        Rng r(sim::mix64(plan.seed, 0x401 + i));
                        set_fuse_context(nullptr, 7, 7);
                        for (int k = 0; k < plan.ci("noise_n", 400) && !quiet; ++k)
                        {
                            int rc = 0;
                            struct stat st;
                            struct statvfs sv;
                            switch (r.below(3))
                            {
                            case 0:
                                rc = fo.statfs("/", &sv);
                                break;
                            default:
                                rc = fo.getattr("/", &st);
                                if (rc == 0 && !S_ISDIR(st.st_mode))
                                    sim::violation("mount-op", "the root is not a directory");
                            }
                            if (rc == -ENOTCONN)
                                return;
                            if (rc < 0)
                                sim::violation("mount-op", strf("a request for the root fails with %d", rc));
                            sim::sleep_until(sim::now_ns() + (int64_t)r.below(plan.ci("noise_gap", 2000000)));
                        }
                    }));
            }
        }
        void collect()
        {
            if (collected)
                return;
            while (!done)
                sim::block_on(this);
            if (tid >= 0)
                sim::join(tid);
            if (bg)
            {
                sim::join(parent);
                if (killer >= 0)
                    sim::join(killer);
                sim::g_on_spawn = nullptr;
                if (parent_done_at - std::max(done_at, up_at) > bg_slack)
                    sim::violation("background", strf("the mount command returns %.1f s after the mount is there",
                                                      (parent_done_at - std::max(done_at, up_at)) / 1e9));
                if (!up_at)
                    rc = parent_rc;
            }
            quiet = true;
            for (int t : noise)
                sim::join(t);
            collected = true;
        }
        ~LifeMount() override
        {
            if (!done)
            {
                int sig = plan.ci("sig", SIGTERM);
                sim::deliver_signal(sig);
            }
            collect();
        }
    };
    struct Life
    {
        Engine e;
        Plan& plan;
        LifeMount* lm = nullptr;
        // the armed stop
        int kind = -1;
        int64_t nth = 0;
        uint64_t base = 0;
        bool fired = false;
        int stopper = -1;
        int64_t fired_at = 0;

        // another process that tries to mount the same repository
        struct Other
        {
            int tid = -1;
            int pid = 0;
            bool took = false, locked = false;
            bool holds = false;    // serves until it is told to end
            bool end = false;
            std::set<uint64_t> opened, changed, locks;    // by the current attempt
            string touched;                       // what was changed under the current attempt
        } other;
        string lock_file() { return g_data_dir + "/.securefs.lock"; }
        static bool in_repo(const string& p)
        {
            // "#3:name" for names below an open directory, "#4" for descriptors
            return p[0] == '#' || p.compare(0, g_data_dir.size() + 1, g_data_dir + "/") == 0;
        }
        static bool is_lock(const string& p)
        {
            static const string n = ".securefs.lock";
            return p.size() >= n.size() && p.compare(p.size() - n.size(), n.size(), n) == 0;
        }
        void watch()
        {
            sim::g_on_open = [this](uint64_t ino, const string& p)
            {
                if (is_lock(p))
                    other.locks.insert(ino);
                else if (sim::tl_pid && in_repo(p))
                    other.opened.insert(ino);
            };
            sim::g_on_change = [this](uint64_t ino, const string& p)
            {
                if (is_lock(p) || other.locks.count(ino))
                {
                    other.locked |= sim::tl_pid != 0;
                    sim::wake_all(&other);
                    return;
                }
                if (sim::tl_pid)
                {
                    if (in_repo(p) && !other.locks.count(ino))
                        other.changed.insert(ino);
                }
                else if (other.tid >= 0 && (other.opened.count(ino) || (other.locked && in_repo(p))))
                    other.touched = p;
            };
            g_on_setup = [this]
            {
                if (!sim::tl_pid)
                    return false;
                other.took = true;
                auto s = g_sess;
                sim::trace("another process mounts");
                if (lm && !lm->done && s && !s->exited && !s->dead && !s->torn)
                    sim::violation("mounted-twice", "another process mounts the repository that is being served");
                check_touched();
                if (other.holds)
                {
                    while (!other.end)
                        sim::block_on(&other);
                    other.holds = false;
                }
                return true;
            };
        }
        // Two processes begin to mount at the same time: exactly one of them serves.
        void start_both()
        {
            other.took = other.end = false;
            other.holds = true;
            other.pid = (int)plan.ci("other_pid", 777);
            sim::g_other_pids.insert(other.pid);
            int64_t gap = plan.ci("both");
            other.tid = sim::spawn(
                [this, gap]
                {
                    sim::become(other.pid);
                    sim::sleep_until(sim::now_ns() + gap);
                    try_other();
                    sim::become(0);
                });
            bool up = false;
            try
            {
                e.mount();
                up = true;
            }
            catch (const MountFailed& f)
            {
                if ((f.rc & 0xff) == 0)
                    sim::violation("mount-status", "the mount command returns 0 though it did not mount");
            }
            if (up)
            {
                if (other.took && other.holds)
                    sim::violation("mounted-twice", "two processes that begin to mount at the same time both succeed");
                other.holds = false;
                sim::probe("the first of two simultaneous mounts");
                Op op;
                op.k = "remount";
                op.id = -8;
                finish(op);
                return;
            }
            sim::probe("the second of two simultaneous mounts");
            // the other one is the reason, then
            int64_t until = sim::now_ns() + 20 * 1000000000ll;
            while (!other.took && sim::now_ns() < until)
                sim::sleep_until(sim::now_ns() + 10000000);
            if (!other.took)
                sim::violation("mount-refused", "two processes begin to mount at the same time and neither succeeds");
            if (!exists(lock_file()))
                sim::violation("refused-modifies", "a mount that was refused has removed the lock file");
            other.end = true;
            sim::wake_all(&other);
            join_other();
            if (exists(lock_file()))
                sim::violation("mount-lock", "the lock file is left behind");
        }
        void check_touched()
        {
            if (!other.touched.empty())
                sim::violation("mounted-twice",
                               "another process mounts the repository while the first one still writes to it ("
                                   + other.touched + ")");
        }
        void start_other(const Op& op)
        {
            join_other();
            other.took = false;
            other.pid = (int)plan.ci("other_pid", 777);
            sim::g_other_pids.insert(other.pid);
            int64_t n = op.a, gap = op.b, when = op.len;
            other.tid = sim::spawn(
                [this, n, gap, when]
                {
                    sim::become(other.pid);
                    auto s = g_sess;
                    // until the mount begins to end, or has given up the lock
                    while (when && !gone() && !(when == 1 ? s->exited : !exists(lock_file())))
                        sim::block_on(when == 1 ? (void*)s : (void*)&other, sim::now_ns() + 1000000);
                    for (int64_t i = 0; i < n && !other.took; ++i)
                    {
                        if (gap)
                            sim::sleep_until(sim::now_ns() + gap);
                        bool last = !lm || lm->done;
                        try_other();
                        if (other.took)
                            break;
                        if (last)
                            sim::violation("mount-refused",
                                           "the repository cannot be mounted after its mount has ended");
                    }
                    sim::become(0);
                });
        }
        void try_other()
        {
            other.opened.clear();
            other.changed.clear();
            other.touched.clear();
            other.locked = false;
            std::vector<string> a = {"mount", "--pass", kMountPassword, "--config", kConf};
            if (!e.v.verify)
                a.push_back("--insecure");
            a.insert(a.end(), {g_data_dir, "/simroot/mnt2"});
            int rc = command(a);
            if (rc == 0)
                sim::violation("mount-refused", "the mount command returns 0 though it did not mount");
            if (!other.took)
            {
                sim::probe("another mount refused");
                if (!other.changed.empty())
                    sim::violation("refused-modifies",
                                   "a mount that was refused has changed the repository");
            }
            else
            {
                check_touched();
                sim::probe("another mount took over");
            }
        }
        void join_other()
        {
            if (other.tid < 0)
                return;
            sim::join(other.tid);
            other.tid = -1;
            sim::g_other_pids.erase(other.pid);
        }
        // A lock file of an earlier process is there when the repository is mounted.
        void earlier_lock(int kind)
        {
            string own = std::to_string(getpid());
            const char* c[] = {"", "", "99999", "junk", "123456789012345678901234567890", "4000", "5000", own.c_str()};
            int fd = ::open(lock_file().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ::write(fd, c[kind], strlen(c[kind])) != (ssize_t)strlen(c[kind]))
                sim::harness_error("cannot write the lock file");
            ::close(fd);
            if (kind < 5 || kind > 6)
                return;
            sim::g_other_pids.insert(4000);
            sim::g_foreign_pids.insert(5000);
            join_other();
            other.took = false;
            other.pid = 777;
            sim::become(other.pid);
            try_other();
            sim::become(0);
            if (other.took)
                sim::violation("mounted-twice", "the repository is mounted though a running process holds the lock");
            if (!exists(lock_file()))
                sim::violation("refused-modifies", "a mount that was refused has removed the lock file");
            sim::g_other_pids.erase(4000);
            sim::g_foreign_pids.erase(5000);
        }

        explicit Life(Plan& p) : e(p), plan(p)
        {
            sim::g_on_process = on_process;
            if (p.prop == "L01")
                watch();
            e.make_mount = [this]
            {
                auto m = std::make_unique<LifeMount>(e.v, plan);
                lm = m.get();
                mounted();
                return m;
            };
            e.cut = [this] { return gone(); };
            sim::g_on_ioctl = [](const string&, unsigned long req, void* arg) -> int
            {
                auto s = g_sess;
                // nothing gets through before the first exchange
                while (s && !s->inited && !s->dead && !s->torn)
                    sim::block_on(s, sim::now_ns() + 1000000);
                if (!s || s->dead || s->torn || !s->op.ioctl)
                    return -ENOTTY;
                Req r;
                fuse_file_info fi{};
                std::vector<char> buf(_IOC_SIZE(req) + 1);
                r.run = [&](const char*)
                { return s->op.ioctl(nullptr, (int)req, arg, &fi, FUSE_IOCTL_DIR, buf.data()); };
                int rc = submit(*s, r);
                if (rc >= 0 && (_IOC_DIR(req) & _IOC_READ))
                    memcpy(arg, buf.data(), _IOC_SIZE(req));
                return rc;
            };
        }
        bool gone()
        {
            auto s = g_sess;
            return lm && (lm->done || (s && (s->dead || s->torn)));
        }
        void fail(const Op& op, const string& tag, const string& msg) { e.fail(op, tag, msg); }
        void write_config()
        {
            ::mkdir("/simroot/keys", 0700);
            ::mkdir(kMnt, 0755);
            securefs::EncryptedSecurefsParams::Argon2idParams a;
            a.set_time_cost(1);
            a.set_memory_cost(8);
            a.set_parallelism(1);
            string pw = kMountPassword;
            auto enc = securefs::encrypt(
                e.v.params(), a, {(const unsigned char*)pw.data(), pw.size()}, nullptr);
            string c = enc.SerializeAsString();
            auto eintr = sim::cfg.eintr_per_mille;
            sim::cfg.eintr_per_mille = 0;
            int fd = ::open(kConf, O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || ::write(fd, c.data(), c.size()) != (ssize_t)c.size())
                sim::harness_error("cannot write the configuration");
            ::close(fd);
            sim::cfg.eintr_per_mille = eintr;
        }
        bool exists(const string& p)
        {
            sim::NoYield ny;
            struct stat st;
            return ::lstat(p.c_str(), &st) == 0;
        }
        bool owned(const string& p)
        {
            sim::NoYield ny;
            struct stat st;
            return ::lstat(p.c_str(), &st) == 0 && st.st_size > 0;
        }
        int64_t mounted_at = 0;
        void mounted()
        {
            mounted_at = sim::now_ns();
            auto& a = g_sess->args;
            auto has = [&](const string& o) { return std::find(a.begin(), a.end(), o) != a.end(); };
            // the model of the kernel relies on these
            for (auto o : {"hard_remove", "atomic_o_trunc", "big_writes"})
                if (!has(o))
                    sim::violation("mount-options", strf("the file system is mounted without %s", o));
            if (e.v.full && !has("use_ino"))
                sim::violation("mount-options", "the full format is mounted without use_ino");
            if (g_sess->mountpoint != kMnt)
                sim::violation("mount-options", "mounted at " + g_sess->mountpoint);
            if (e.v.full && !exists(g_data_dir + "/.securefs.lock"))
                sim::violation("mount-lock", "a mounted repository has no lock file");
            if (plan.ci("pidfile") && !exists(kPid) && !g_trying)
                sim::violation("mount-pid", "the PID file does not exist while mounted");
        }
        static constexpr int64_t kSoon = 50000000;
        // The mount has ended by itself.
        void idle_stop(const Op& op, Sess& s)
        {
            if (!e.v.idle)
                fail(op, "stop-unasked", "the mount ends though nothing asked it to");
            // a request may come in while the decision is carried out
            int64_t last = mounted_at;
            for (auto t : s.activity)
                if (t < s.exit_at - kSoon)
                    last = t;
            int64_t idle = s.exit_at - last;
            if (idle < e.v.idle * 1000000000ll - kSoon)
                fail(op,
                     "idle-early",
                     strf("the mount ends %.3f s after the last request, though it may be idle for %lld s",
                          idle / 1e9,
                          (long long)e.v.idle));
            sim::probe("stop by idling");
        }
        void idle(const Op& op)
        {
            auto s = g_sess;
            sim::sleep_until(sim::now_ns() + op.a);
            if (!e.v.idle || gone() || s->exited)
                return;
            int64_t last = std::max(mounted_at, s->activity.empty() ? 0 : s->activity.back());
            if (sim::now_ns() - last > e.v.idle * 1000000000ll + kSoon)
                fail(op,
                     "idle-late",
                     strf("no request came in for %.3f s, and the mount has not ended (%lld s allowed)",
                          (sim::now_ns() - last) / 1e9,
                          (long long)e.v.idle));
        }
        // Waits for the mount command to return and checks how it did.
        void after_stop(const Op& op)
        {
            auto s = g_sess;
            lm->collect();
            join_other();
            if (stopper >= 0)
            {
                sim::join(stopper);
                stopper = -1;
            }
            int want = kind == 4 && fired ? 1 : 0;
            if (want == 0 && lm->rc != 0)
                fail(op, "stop-status", strf("the mount command returns %d after a regular stop", lm->rc));
            if (want == 1 && lm->rc == 0)
                fail(op, "stop-status", "the mount command returns 0 though receiving requests failed");
            int64_t limit = 20 * 1000000000ll;
            for (auto& f : plan.faults)
                if (f.err < 0)
                    limit += f.shortlen;    // a stalled disk
            if (fired && lm->done_at - fired_at > limit)
                fail(op,
                     "stop-late",
                     strf("the mount command returns %.1f s after it was told to stop",
                          (lm->done_at - fired_at) / 1e9));
            if (s->exit_at && (!fired || s->exit_at < fired_at))
                idle_stop(op, *s);
            if (!s->torn)
                fail(op, "stop-teardown", "the mount command returned without fuse_teardown");
            if (exists(g_data_dir + "/.securefs.lock"))
                fail(op, "mount-lock", "the lock file is left behind after a regular stop");
            if (plan.ci("pidfile") && exists(kPid))
                fail(op, "mount-pid", "the PID file is left behind");
            sim::probe("stops");
        }
        void arm(const Op& op)
        {
            disarm();
            kind = (int)op.a;
            nth = op.b;
            base = g_sess->received;
            fired = false;
            // an orderly unmount needs everything closed
            if (kind == 3)
                close_all();
            stopper = sim::spawn([this] { stop_thread(); });
        }
        bool cancel_stop = false;
        void disarm()
        {
            if (stopper < 0)
                return;
            cancel_stop = true;
            sim::wake_all(this);
            sim::join(stopper);
            cancel_stop = false;
            stopper = -1;
        }
        void close_all()
        {
            for (auto& [i, hd] : e.hs)
            {
                if (hd.dir)
                    e.k->releasedir(hd);
                else
                    e.k->close(hd);
                if (hd.node)
                {
                    --hd.node->opens;
                    hd.node->unflushed = false;
                }
            }
            e.hs.clear();
        }
        void stop_thread()
        {
            auto s = g_sess;
            while (!cancel_stop && !gone() && s->received < base + (uint64_t)nth)
                sim::block_on(s, sim::now_ns() + 1000000);
            if (cancel_stop || gone())
                return;
            sim::trace("stop kind %d", kind);
            fired_at = sim::now_ns();
            fired = true;
            static const char* names[] = {"signal", "signals", "unmount command", "kernel unmount",
                                          "receive error"};
            sim::probe(strf("stop by %s", names[kind]).c_str());
            switch (kind)
            {
            case 0:
            case 1:
            {
                static const int sigs[] = {SIGINT, SIGTERM, SIGHUP};
                for (int i = 0; i <= kind; ++i)
                    if (!sim::deliver_signal(sigs[(nth + i) % 3]) && i == 0)
                        sim::violation("stop-signal",
                                       strf("signal %d would kill the process", sigs[nth % 3]));
                break;
            }
            case 2:
            {
                int rc = command({"unmount", kMnt});
                // the answer may be lost when something else stops the mount
                if (rc != 0 && !s->exited)
                    sim::violation("stop-command", strf("the unmount command fails with %d", rc));
                break;
            }
            case 3:
                s->dead = true;
                kill_queue(*s);
                break;
            case 4:
                s->fail_receive = EIO;
                sim::wake_all(s);
                break;
            }
        }
        // Nothing of the process is left.
        void exited()
        {
            e.hs.clear();
            e.k.reset();
            e.mnt.reset();
            lm = nullptr;
            kind = -1;
            fired = false;
            sim::install_disk(sim::disk);
        }
        void restart(const Op& op)
        {
            after_stop(op);
            exited();
            ++sim::R->remounts;
            e.mount();
        }
        static bool one_change(const string& k)
        {
            static const std::set<string> s
                = {"mkdir", "rmdir", "unlink", "symlink", "link", "rename", "chmod", "chown", "utimens",
                   "setx", "remx", "trunc", "ftrunc"};
            return s.count(k) != 0;
        }
        // Runs an operation; the mount may stop in it.
        void exec(const Op& op)
        {
            std::map<Node*, NodeP> rm;
            Model pre = e.model.clone(&rm);
            HandleMap hm;
            for (auto& [i, hd] : e.hs)
                if (hd.node)
                {
                    auto it = rm.find(hd.node.get());
                    if (it == rm.end())
                        it = rm.emplace(hd.node.get(), std::make_shared<Node>(*hd.node)).first;
                    hm[i] = {it->second, hd.dir ? -1 : hd.acc};
                }
            auto tg = op_targets(e, op);
            tl_changed = 0;
            int changed = 0;
            bool hit = false, expected = false;
            try
            {
                e.exec(op);
            }
            catch (const FaultHit& f)
            {
                hit = true;
                expected = f.expected;
                changed = tl_changed;
            }
            if (!hit)
            {
                // stopped before anything noticed
                return;
            }
            sim::end_op();
            sim::begin_op(-3);
            sim::probe("stopped inside an operation");
            auto fz = [&](Node& n, bool isnew)
            {
                n.mt_exact = n.at_exact = false;
                n.mt_lo = -1;
                if (n.kind == KF)
                {
                    n.fuzzy = true;
                    n.dirty.clear();
                    (void)isnew;
                }
            };
            std::map<Node*, NodeP> rm2;
            Model post = pre.clone(&rm2);
            HandleMap hm2;
            for (auto& [i, x] : hm)
            {
                auto it = rm2.find(x.first.get());
                if (it == rm2.end())
                    it = rm2.emplace(x.first.get(), std::make_shared<Node>(*x.first)).first;
                hm2[i] = {it->second, x.second};
            }
            int want = model_apply(post, e.v, hm2, op);
            bool changes = want == 0 && !expected;
            for (auto* t : tg.nodes)
            {
                auto a = rm.find(t);
                if (a == rm.end())
                    continue;
                fz(*a->second, false);
                // everything may have changed that the operation covers
                a->second->dirty.push_back({0, UINT64_MAX});
                auto b = rm2.find(a->second.get());
                if (b != rm2.end())
                {
                    fz(*b->second, false);
                    b->second->dirty.push_back({0, UINT64_MAX});
                }
            }
            std::set<Node*> known;
            for (auto& [raw, n] : rm2)
                known.insert(n.get());
            post.walk([&](const string&, const NodeP& n) { if (!known.count(n.get())) fz(*n, true); });
            auto forget = [](const string&, const NodeP& n)
            {
                n->opens = 0;
                n->unflushed = false;
                n->mt_exact &= n->kind != KD;
            };
            pre.walk(forget);
            post.walk(forget);
            e.model = pre;    // handles are gone
            e.hs.clear();
            restart(op);
            bool single = one_change(op.k);
            bool try_post = changes && !(single && changed == 0);
            bool try_pre = !(changes && single && changed > 0);
            string bad1 = try_post ? e.compare_tree(post, true) : "(nothing was executed)";
            bool is_post = bad1.empty();
            if (!is_post)
            {
                // the comparison has read everything
                pre.walk([](const string&, const NodeP& n) { n->at_exact = false; });
                string bad0 = try_pre ? e.compare_tree(pre, true) : "(it was executed)";
                if (!bad0.empty())
                    fail(op,
                         "stop-torn",
                         strf("the mount was stopped in this operation, and neither the state after it is "
                              "there: %s\n  nor the one before it: %s",
                              bad1.c_str(),
                              bad0.c_str()));
            }
            sim::probe(is_post ? "stopped, state after" : "stopped, state before");
            e.model = is_post ? post : pre;
            std::map<Node*, Node*> before;
            for (auto& [raw, n] : rm2)
                before[is_post ? n.get() : raw] = is_post ? raw : n.get();
            settle(e, op, e.model, before, is_post, false, "after a stop");
            e.model.walk([](const string&, const NodeP& n) { n->dirty.clear(); });
            sim::end_op();
        }
        // Mounting meets an error of the operating system: it works, or it fails and leaves nothing behind.
        void faulty_mount()
        {
            g_trying = true;
            uint64_t before = sim::faults_total();
            bool up = false;
            try
            {
                e.mount();
                up = true;
            }
            catch (const MountFailed& f)
            {
                if (sim::faults_total() == before)
                    sim::violation("mount-status", strf("mounting fails with %d", f.rc));
                if ((f.rc & 0xff) == 0)
                    sim::violation("mount-status", "the mount command returns 0 though it did not mount");
                sim::probe("mounting failed after a fault");
            }
            sim::g_io_faults_enabled = false;
            if (up)
            {
                sim::probe("mounted in spite of a fault");
                Op op;
                op.k = "remount";
                op.id = -8;
                finish(op);
            }
            else
            {
                if (g_sess && !g_sess->torn)
                    sim::violation("stop-teardown", "failing to mount leaves the session behind");
                // an empty one belongs to nobody
                if (owned(lock_file()))
                    sim::violation("mount-lock", "failing to mount leaves the lock file behind");
                if (plan.ci("pidfile") && exists(kPid))
                    sim::violation("mount-pid", "failing to mount leaves the PID file behind");
            }
            sim::g_io_faults_enabled = true;
            g_trying = false;
        }
        void run_m01()
        {
            e.init_volume();
            write_config();
            if (plan.ci("pidfile"))
                setenv("SECUREFS_PID_FILE", kPid, 1);
            else
                unsetenv("SECUREFS_PID_FILE");
            // mounting that fails leaves nothing behind
            if (plan.ci("failsetup"))
            {
                g_fail_setup = (int)plan.ci("failsetup");
                sim::begin_op(-4);
                try
                {
                    e.mount();
                    sim::violation("mount-status", "mounting succeeds though libfuse failed");
                }
                catch (const MountFailed& f)
                {
                    if (f.rc == 0)
                        sim::violation("mount-status", "the mount command returns 0 though libfuse failed");
                }
                if (g_sess && !g_sess->torn)
                    sim::violation("stop-teardown", "failing to mount leaves the session behind");
                if (exists(g_data_dir + "/.securefs.lock"))
                    sim::violation("mount-lock", "failing to mount leaves the lock file behind");
                if (plan.ci("pidfile") && exists(kPid))
                    sim::violation("mount-pid", "failing to mount leaves the PID file behind");
                g_fail_setup = 0;
                sim::end_op();
            }
            if (plan.ci("bg") && plan.ci("bgkill"))
            {
                sim::begin_op(-4);
                g_kill_child = (int)plan.ci("bgkill");
                int64_t t0 = sim::now_ns();
                try
                {
                    e.mount();
                    sim::violation("mount-status", "mounting succeeds though the process that should serve was killed");
                }
                catch (const MountFailed& f)
                {
                    if (f.rc == 0)
                        sim::violation("background",
                                       "the mount command returns 0 though the process it started was killed");
                }
                if (sim::now_ns() - t0 > plan.ci("bgkillat") + 20 * 1000000000ll)
                    sim::violation("background", "the mount command returns long after the process it started was killed");
                g_kill_child = 0;
                sim::end_op();
            }
            if (plan.ci("mountfault"))
            {
                sim::begin_op(-8);
                faulty_mount();
                sim::end_op();
            }
            if (plan.ci("both"))
            {
                sim::begin_op(-8);
                start_both();
                sim::end_op();
            }
            if (plan.ci("prelock"))
            {
                sim::begin_op(-6);
                earlier_lock((int)plan.ci("prelock"));
                sim::end_op();
            }
            e.tolerant = true;
            sim::begin_op(-5);
            try
            {
                e.mount();
            }
            catch (const MountFailed& f)
            {
                sim::violation("mount-status", strf("mounting fails with %d", f.rc));
            }
            if (command({"ismount", kMnt}) != 0)
                sim::violation("ismount", "ismount denies that the file system is mounted");
            sim::end_op();
            for (auto& op : plan.ops)
            {
                if (op.k == "stop")
                {
                    sim::begin_op(op.id);
                    arm(op);
                    sim::end_op();
                }
                else if (op.k == "second")
                {
                    sim::begin_op(op.id);
                    start_other(op);
                    sim::end_op();
                }
                else if (op.k == "idle")
                {
                    sim::begin_op(op.id);
                    idle(op);
                    sim::end_op();
                }
                else if (op.k == "remount")
                {
                    sim::begin_op(op.id);
                    finish(op);
                    ++sim::R->remounts;
                    if (plan.ci("mountfault"))
                        faulty_mount();
                    e.mount();
                    sim::end_op();
                }
                else
                    exec(op);
            }
            sim::begin_op(-1);
            Op last;
            last.k = "end";
            last.id = -1;
            finish(last);
            e.mount();
            e.verify_all("at the end");
            finish(last);
            if (command({"ismount", kMnt}) == 0)
                sim::violation("ismount", "ismount claims that the file system is mounted");
            e.check_storage();
            sim::end_op();
        }
        // An orderly end: the armed stop, or a signal.
        void finish(const Op& op)
        {
            if (!gone())
                close_all();
            else
                forget();
            if (!gone())
            {
                disarm();
                if (!gone() && !fired)
                {
                    kind = 0;
                    fired = true;
                    fired_at = sim::now_ns();
                    sim::deliver_signal((int)plan.ci("sig", SIGTERM));
                }
            }
            after_stop(op);
            exited();
        }
        void forget()
        {
            e.hs.clear();
            e.model.walk(
                [](const string&, const NodeP& n)
                {
                    n->opens = 0;
                    n->unflushed = false;
                });
        }
    };
    void run_m01(Plan& p)
    {
        Life l(p);
        l.run_m01();
    }
    Plan gen_m01(uint64_t seed, bool thorough)
    {
        Gen g("M01", seed);
        g.config(-1);
        g.finish_config();
        g.p.set("check_xattr", 1);
        g.p.set("gensched", 1);
        if (g.r.chance(1, 3))
            g.p.set("prio", g.r.oneof({50, 200, 1000}));
        else
            g.p.set("preempt", g.r.oneof({0, 20, 100, 300}));
        g.p.set("nproc", g.r.oneof({1, 2, 2, 3, 4}));
        if (g.r.chance(1, 6))
            g.p.set("single", 1);
        if (g.r.chance(1, 2))
            g.p.set("noise", g.r.oneof({1, 2, 3}));
        if (g.r.chance(1, 4))
            g.p.set("eintr", g.r.oneof({5, 50}));
        if (g.r.chance(1, 5))
            g.p.set("failsetup", g.r.oneof({1, 2, 3}));
        if (g.r.chance(1, 3))
            g.p.set("bg", 1);
        if (g.p.ci("bg") && g.r.chance(1, 4))
        {
            g.p.set("bgkill", g.r.oneof({SIGKILL, SIGSEGV, SIGABRT, SIGTERM}));
            g.p.set("bgkillat", g.r.oneof<int64_t>({0, 1000, 100000, 1000000000}) + (int64_t)g.r.below(1000000));
        }
        if (g.r.chance(1, 3))
            g.p.set("pidfile", 1);
        if (g.r.chance(1, 3))
        {
            g.p.set("mountfault", 1);
            sim::Fault f;
            f.op = g.p.ci("bg") && g.r.chance(1, 4) ? kParentTry : kMountTry;
            f.cls = g.r.oneof<int>({sim::C_OPEN, sim::C_OPEN, sim::C_READ, sim::C_READ, sim::C_WRITE, sim::C_STAT,
                                    sim::C_STATFS, sim::C_RANDOM, sim::C_FSYNC, sim::C_OTHER, sim::C_TRUNC,
                                    sim::C_LOCK, sim::C_FLOCK});
            f.nth = (int)g.r.range(1, 10);
            f.count = (int)g.r.oneof({1, 1, 1000});
            f.err = g.r.oneof({EIO, EIO, EACCES, ENOMEM, EMFILE, ENOSPC, EROFS});
            g.p.faults.push_back(f);
        }
        if (g.r.chance(1, 2))
            g.p.set("fstype", g.r.oneof<int64_t>({0xEF53, 0x9123683E, 0x6969, 0x65735546, 0x794c7630}));
        if (g.r.chance(1, 4))
            g.p.set("idle", g.r.oneof({1, 30, 3600}));
        g.p.set("sig", g.r.oneof({SIGINT, SIGTERM, SIGHUP}));
        g.max_size = g.r.oneof<uint64_t>({2000, 20000, 200000});
        g.names.resize(g.r.range(3, 8));
        W w = {{"create", 6}, {"mkfile", 10}, {"open", 10}, {"close", 3}, {"write", 14}, {"append", 5},
               {"ftrunc", 5}, {"trunc", 5}, {"mkdir", 7}, {"rmdir", 3}, {"unlink", 5}, {"rename", 7},
               {"link", 3}, {"symlink", 3}, {"chmod", 2}, {"chown", 1}, {"utimens", 2}, {"setx", 3},
               {"remx", 1}, {"readfile", 3}, {"flush", 2}, {"fsync", 1}, {"ls", 3}, {"stat", 4}, {"read", 4}};
        int segs = (int)g.r.range(1, thorough ? 5 : 3);
        int n = (int)g.r.range(4, thorough ? 30 : 16);
        for (int i = 0; i < segs; ++i)
        {
            g.fill(w, n);
            Op op;
            op.id = (int)g.p.ops.size() + 1;
            op.k = "stop";
            op.a = g.r.oneof({0, 0, 1, 2, 2, 3, 4});
            op.b = (int64_t)g.r.oneof({0, 1, 2, 3, 5, 8, 13}) + (int64_t)g.r.below(3);
            g.p.ops.push_back(op);
            g.fill(w, (int)g.r.range(1, 8));
            for (auto& [i2, x] : g.hs)
                --x.first->opens;
            g.hs.clear();
            Op re;
            re.id = (int)g.p.ops.size() + 1;
            re.k = "remount";
            g.p.ops.push_back(re);
        }
        return g.p;
    }
    Plan gen_l01(uint64_t seed, bool thorough)
    {
        Gen g("L01", seed);
        g.config(1);
        g.finish_config();
        g.p.set("gensched", 1);
        if (g.r.chance(1, 2))
            g.p.set("prio", g.r.oneof({20, 50, 200, 1000}));
        else
            g.p.set("preempt", g.r.oneof({20, 100, 300}));
        g.p.set("nproc", g.r.oneof({1, 2, 3}));
        if (g.r.chance(1, 6))
            g.p.set("single", 1);
        if (g.r.chance(1, 4))
            g.p.set("noise", g.r.oneof({1, 2}));
        if (g.r.chance(1, 2))
            g.p.set("prelock", g.r.range(1, 7));
        if (g.r.chance(1, 2))
            g.p.set("both", g.r.oneof({1, 1000, 100000, 1000000}) * (int64_t)g.r.range(1, 10));
        g.p.set("sig", g.r.oneof({SIGINT, SIGTERM, SIGHUP}));
        g.max_size = 3000;
        g.names.resize(4);
        W w = {{"mkfile", 10}, {"open", 10}, {"close", 5}, {"write", 8}, {"mkdir", 8}, {"unlink", 4}, {"rmdir", 3},
               {"rename", 5}, {"chmod", 2}, {"setx", 3}, {"flush", 2}, {"fsync", 1}, {"ls", 3}, {"stat", 3}};
        auto add = [&](const char* k) -> Op&
        {
            Op op;
            op.id = (int)g.p.ops.size() + 1;
            op.k = k;
            g.p.ops.push_back(op);
            return g.p.ops.back();
        };
        auto second = [&](bool until_end)
        {
            auto& s = add("second");
            s.a = until_end ? 1000 : g.r.range(1, 3);
            s.b = (int64_t)g.r.oneof({0, 0, 1000, 1000000}) + (int64_t)g.r.below(1000);
            if (until_end)
            {
                s.len = g.r.below(3);
                s.b = s.len ? 0 : std::max<int64_t>(s.b, 200000);
            }
        };
        int segs = (int)g.r.range(1, thorough ? 5 : 3);
        for (int i = 0; i < segs; ++i)
        {
            g.fill(w, (int)g.r.range(1, thorough ? 10 : 6));
            if (g.r.chance(1, 2))
            {
                second(false);
                g.fill(w, (int)g.r.range(1, 6));
            }
            if (g.r.chance(3, 4))
                second(g.r.chance(1, 2));
            if (g.r.chance(2, 3))
            {
                auto& st = add("stop");
                st.a = g.r.oneof({0, 0, 1, 2, 3});
                st.b = (int64_t)g.r.below(8);
                g.fill(w, (int)g.r.range(1, 5));
            }
            for (auto& [i2, x] : g.hs)
                --x.first->opens;
            g.hs.clear();
            add("remount");
        }
        return g.p;
    }
    Plan gen_i01(uint64_t seed, bool thorough)
    {
        Gen g("I01", seed);
        g.config(-1);
        g.finish_config();
        g.p.set("gensched", 1);
        g.p.set("preempt", g.r.oneof({0, 20, 100, 300}));
        g.p.set("nproc", g.r.oneof({1, 2, 3}));
        int64_t n = g.r.oneof({1, 2, 5, 60, 3600});
        int64_t ns = n * 1000000000ll;
        g.p.set("idle", n);
        if (g.r.chance(1, 3))
        {
            g.p.set("noise", g.r.oneof({1, 2}));
            g.p.set("noise_gap", (int64_t)(ns * g.r.oneof({0.05, 0.5, 0.95, 1.2})));
            g.p.set("noise_n", g.r.oneof({3, 20, 100}));
        }
        if (g.r.chance(1, 6))
            g.p.set("single", 1);
        if (g.r.chance(1, 3))
        {
            // the disk is slow while mounting
            sim::Fault f;
            f.op = kMountOp;
            f.cls = g.r.oneof<int>({sim::C_OPEN, sim::C_STAT, sim::C_READ, sim::C_STATFS});
            f.nth = (int)g.r.range(1, 8);
            f.err = -1;
            f.shortlen = (int64_t)(ns * g.r.oneof({0.3, 0.9, 1.0, 1.5, 3.0}));
            g.p.faults.push_back(f);
        }
        g.max_size = 5000;
        g.names.resize(4);
        W w = {{"mkfile", 10}, {"open", 10}, {"close", 5}, {"write", 8}, {"mkdir", 5}, {"unlink", 3},
               {"rename", 5}, {"chmod", 3}, {"setx", 3}, {"readfile", 5}, {"flush", 3}, {"fsync", 3},
               {"ls", 5}, {"stat", 10}, {"read", 5}, {"fstat", 4}, {"ftrunc", 4}, {"trunc", 3}, {"rmdir", 2},
               {"symlink", 3}, {"link", 3}, {"readlink", 3}, {"chown", 3}, {"utimens", 3}, {"getx", 3},
               {"listx", 3}, {"remx", 2}, {"statfs", 3}, {"opendir", 3}, {"readdirh", 4}, {"closedir", 3}};
        g.p.set("dcache", g.r.chance(3, 4));
        int segs = (int)g.r.range(1, thorough ? 4 : 3);
        auto add = [&](const char* k) -> Op&
        {
            Op op;
            op.id = (int)g.p.ops.size() + 1;
            op.k = k;
            g.p.ops.push_back(op);
            return g.p.ops.back();
        };
        for (int i = 0; i < segs; ++i)
        {
            int k = (int)g.r.range(1, thorough ? 10 : 6);
            for (int j = 0; j < k; ++j)
            {
                g.fill(w, (int)g.r.range(1, 4));
                if (g.r.chance(1, 2) && !g.p.ops.empty() && g.p.ops.back().k != "idle")
                {
                    // with its lookups long before it
                    Op last = g.p.ops.back();
                    g.p.ops.pop_back();
                    for (auto& x : {last.p, last.q})
                        for (auto y = x; y.size() > 1 && y[0] == '/'; y.resize(y.find_last_of('/')))
                            add("stat").p = y;
                    add("idle").a = (int64_t)(ns * g.r.oneof({0.5, 0.9, 0.97, 0.99}));
                    last.id = (int)g.p.ops.size() + 1;
                    g.p.ops.push_back(last);
                }
                add("idle").a = (int64_t)(ns * g.r.oneof({0.1, 0.5, 0.9, 0.97, 0.99, 0.999}));
            }
            if (g.r.chance(3, 4))
                add("idle").a = (int64_t)(ns * g.r.oneof({1.0, 1.001, 1.06, 1.5, 3.0}));
            if (g.r.chance(1, 2))
                g.fill(w, (int)g.r.range(1, 3));
            for (auto& [i2, x] : g.hs)
                --x.first->opens;
            g.hs.clear();
            add("remount");
        }
        return g.p;
    }
}    // namespace
extern const std::vector<Prop> kLifeProps;
const std::vector<Prop> kLifeProps = {
    {"M01", gen_m01, run_m01, "the life of a mount", 2},
    {"L01", gen_l01, run_m01, "one mount at a time", 2},
    {"I01", gen_i01, run_m01, "idle mounts", 2},
};
}    // namespace h
