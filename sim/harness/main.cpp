// Driver: one forked child per simulated run; batch search, replay and minimisation.
#include "h.h"

#include <execinfo.h>
#include <signal.h>

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <malloc.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

using namespace h;

namespace
{
sim::RunResult* shared = nullptr;
bool verbose = false;

struct Outcome
{
    int status = 0;    // 1 ok 2 violation 3 error
    std::string tag, msg;
};

void child_main(Plan& plan, const Prop& prop)
{
    struct rlimit rl = {30, 31};
    syscall(SYS_prlimit64, 0, RLIMIT_CPU, &rl, nullptr);
    if (!verbose)
    {
        const char* log = getenv("SIMSEC_STDERR");
        if (log)
            signal(SIGABRT,
                   [](int)
                   {
                       void* a[60];
                       int n = backtrace(a, 60);
                       backtrace_symbols_fd(a, n, 2);
                       syscall(SYS_exit_group, 9);
                   });
        int fd = (int)syscall(SYS_open, log ? log : "/dev/null", 1 | 02000);
        syscall(SYS_dup2, fd, 2);
        syscall(SYS_dup2, fd, 1);
    }
    sim::R = shared;
    sim::g_trace = verbose;
    sim::cfg = sim::RunConfig{};
    sim::cfg.seed = plan.ci("entropy", plan.seed);
    sim::cfg.faults = plan.faults;
    sim::cfg.crashes = plan.crashes;
    sim::cfg.devs = plan.devs;
    sim::cfg.generate_sched = plan.ci("gensched", 0) != 0;
    sim::cfg.sched_seed = sim::mix64(plan.seed, 77);
    sim::cfg.preempt_per_mille = (unsigned)plan.ci("preempt", 0);
    sim::cfg.short_io_per_mille = (unsigned)plan.ci("shortio", 0);
    sim::cfg.eintr_per_mille = (unsigned)plan.ci("eintr", 0);
    sim::cfg.fs_type = (long)plan.ci("fstype", 0xEF53);
    sim::cfg.io_seed = sim::mix64(plan.seed, 78);
    sim::cfg.prio_change = (unsigned)plan.ci("prio", 0);
    sim::cfg.few_ids = (unsigned)plan.ci("few_ids", 0);
    sim::cfg.writer_priority = plan.ci("wprio", 1) != 0;
    sim::cfg.nproc = (int)plan.ci("nproc", 2);
    sim::cfg.max_steps = (uint64_t)plan.ci("max_steps", 20000000);
    if (plan.c.count("capacity"))
        sim::cfg.disk_capacity = (uint64_t)plan.ci("capacity");
    sim::install_disk(sim::fresh_disk());
    sim::sched_init_main();
    prop.run(plan);
    sim::finish_ok();
}
// The run executes on a stack at a fixed address with known contents: what uninitialised memory
// holds must not depend on the environment.
Plan* g_plan;
const Prop* g_prop;
void child_entry()
{
    child_main(*g_plan, *g_prop);
    _exit(9);
}
void child_on_fixed_stack(Plan& plan, const Prop& prop)
{
    constexpr size_t kSize = 64u << 20;
    void* st = mmap((void*)0x7e0000000000ull,
                    kSize,
                    PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                    -1,
                    0);
    if (st == MAP_FAILED)
        _exit(9);
    mallopt(M_PERTURB, 0x5a);
    static ucontext_t a, b;
    getcontext(&a);
    a.uc_stack.ss_sp = st;
    a.uc_stack.ss_size = kSize;
    a.uc_link = nullptr;
    g_plan = &plan;
    g_prop = &prop;
    makecontext(&a, child_entry, 0);
    swapcontext(&b, &a);
}

Outcome run_once(Plan& plan)
{
    const Prop* prop = find_prop(plan.prop);
    Outcome o;
    if (!prop)
    {
        o.status = 3;
        o.msg = "unknown property " + plan.prop;
        return o;
    }
    memset((void*)shared, 0, sizeof *shared);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        child_on_fixed_stack(plan, *prop);
        _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    if (WIFSIGNALED(st) && shared->status == 0)
    {
        int sg = WTERMSIG(st);
        o.status = sg == SIGKILL ? 3 : 2;
        o.tag = sg == SIGXCPU ? "no-progress" : strf("process-died-signal-%d", sg);
        o.msg = sg == SIGXCPU ? "the run burnt 30 s of CPU without finishing"
                              : strf("the process was terminated by signal %d (%s) %s",
                                     sg,
                                     strsignal(sg),
                                     shared->msg);
        return o;
    }
    o.status = shared->status;
    o.tag = shared->tag;
    o.msg = shared->msg;
    if (o.status == 0)
    {
        o.status = 2;
        o.tag = "process-exited";
        o.msg = strf("the process exited by itself (wait status 0x%x)", st);
    }
    return o;
}
// Turns the schedule choices of a generating run into an explicit plan.
void freeze_sched(Plan& plan)
{
    if (!plan.ci("gensched", 0))
        return;
    for (uint32_t i = 0; i < shared->sched_len; ++i)
        plan.devs.push_back({shared->sched[i].op, shared->sched[i].step, shared->sched[i].to});
    plan.c.erase("gensched");
    plan.c.erase("preempt");
    plan.c.erase("prio");
}

Plan minimize(Plan plan, const std::string& tag, double budget, int* tries)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&]
    {
        return budget
            - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    };
    auto still = [&](Plan& p) -> bool
    {
        ++*tries;
        Outcome o = run_once(p);
        return o.status == 2 && o.tag == tag;
    };
    auto dd = [&](auto get)
    {
        size_t n = 2;
        while (left() > 0)
        {
            auto v = get(plan);
            if (v.empty())
                return;
            if (n > v.size())
                n = v.size();
            bool red = false;
            size_t chunk = (v.size() + n - 1) / n;
            for (size_t i = 0; i < v.size() && left() > 0; i += chunk)
            {
                Plan c = plan;
                auto& w = get(c);
                w.erase(w.begin() + i, w.begin() + std::min(w.size(), i + chunk));
                if (still(c))
                {
                    plan = c;
                    red = true;
                    n = std::max<size_t>(n - 1, 2);
                    break;
                }
            }
            if (!red)
            {
                if (chunk == 1)
                    return;
                n = std::min(v.size(), n * 2);
            }
        }
    };
    auto ops = [](Plan& p) -> std::vector<Op>& { return p.ops; };
    auto flt = [](Plan& p) -> std::vector<sim::Fault>& { return p.faults; };
    auto crs = [](Plan& p) -> std::vector<sim::CrashSpec>& { return p.crashes; };
    auto dev = [](Plan& p) -> std::vector<sim::SchedDev>& { return p.devs; };
    for (int round = 0; round < 3 && left() > 0; ++round)
    {
        size_t before = plan.text().size();
        dd(flt);
        dd(crs);
        dd(dev);
        dd(ops);
        for (const char* key : {"shortio", "eintr"})
            if (plan.ci(key, 0))
            {
                Plan c = plan;
                c.c.erase(key);
                if (still(c))
                    plan = c;
            }
        if (plan.text().size() == before)
            break;
    }
    return plan;
}
std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}
std::string json_esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o.push_back('\\');
            o.push_back((char)c);
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 0x20 || c >= 0x7f)
            o += strf("\\u%04x", c);
        else
            o.push_back((char)c);
    }
    return o;
}
int usage()
{
    fprintf(stderr,
            "usage: simsec list | gen PROP SEED [thorough] | run FILE [-v] | min FILE OUT BUDGET |\n"
            "       batch PROP FIRST STRIDE SECONDS OUT tier [maxruns]\n");
    return 2;
}
}    // namespace
int real_main(int argc, char** argv);

__attribute__((optimize("no-stack-protector"))) int main(int argc, char** argv)
{
    // a constant stack canary: its leftovers end up in uninitialised buffers
    asm volatile("movq %0, %%fs:0x28" : : "r"(0x5a5a5a5a5a5a5a00ull));
    int rc = real_main(argc, argv);
    fflush(stdout);
    exit(rc);
}
int real_main(int argc, char** argv)
{
    if (!getenv("SIMSEC_NOASLR"))
    {
        setenv("SIMSEC_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
        {
            execv("/proc/self/exe", argv);
        }
    }
    shared = (sim::RunResult*)mmap(
        nullptr, sizeof(sim::RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 2)
        return usage();
    std::string cmd = argv[1];
    for (int i = 2; i < argc; ++i)
        if (!strcmp(argv[i], "-v"))
            verbose = true;
    if (cmd == "list")
    {
        for (auto& p : props())
            printf("%s\t%s\n", p.id, p.rule);
        return 0;
    }
    if (cmd == "gen" && argc >= 4)
    {
        auto p = find_prop(argv[2]);
        if (!p)
            return usage();
        Plan pl = p->gen(strtoull(argv[3], nullptr, 0), argc > 4 && !strcmp(argv[4], "thorough"));
        std::cout << pl.text();
        return 0;
    }
    if (cmd == "run" && argc >= 3)
    {
        Plan pl = Plan::parse(slurp(argv[2]));
        if (const char* j = getenv("SIMSEC_JUNK"))
        {
            // disturbs the heap layout: results must not depend on it
            Rng r(atoi(j));
            std::vector<std::unique_ptr<char[]>> v;
            for (int i = 0; i < 20000; ++i)
            {
                if (v.size() > 50 && r.chance(1, 2))
                    v[r.below(v.size())].reset();
                size_t n = r.below(r.chance(1, 50) ? 60000 : 600) + 1;
                v.emplace_back(new char[n]);
                for (size_t k = 0; k < n; ++k)
                    v.back()[k] = (char)r.next();
            }
        }
        Outcome o = run_once(pl);
        printf("status=%d tag=%s trace=%016llx sched=%016llx steps=%llu ops=%llu\n%s\n",
               o.status,
               o.tag.c_str(),
               (unsigned long long)shared->trace_hash,
               (unsigned long long)shared->sched_hash,
               (unsigned long long)shared->steps,
               (unsigned long long)shared->ops,
               o.msg.c_str());
        return o.status == 1 ? 0 : o.status == 2 ? 1 : 2;
    }
    if (cmd == "min" && argc >= 5)
    {
        Plan pl = Plan::parse(slurp(argv[2]));
        Outcome o = run_once(pl);
        if (o.status != 2)
        {
            printf("not a violation: status %d %s\n", o.status, o.msg.c_str());
            return 2;
        }
        freeze_sched(pl);
        Outcome o2 = run_once(pl);
        if (o2.status != 2 || o2.tag != o.tag)
        {
            printf("frozen schedule does not reproduce: status %d %s %s\n",
                   o2.status,
                   o2.tag.c_str(),
                   o2.msg.c_str());
            return 2;
        }
        int tries = 0;
        Plan m = minimize(pl, o.tag, atof(argv[4]), &tries);
        Outcome a = run_once(m);
        uint64_t h1 = shared->trace_hash;
        Outcome b = run_once(m);
        if (a.status != 2 || b.status != 2 || a.tag != b.tag || h1 != shared->trace_hash)
        {
            printf("not reproducible\n");
            return 2;
        }
        std::string txt = m.text() + "# violation " + a.tag + "\n# "
            + strf("trace %016llx", (unsigned long long)h1) + "\n";
        std::string msg = "# " + a.msg;
        for (size_t i = 0; i < msg.size(); ++i)
            if (msg[i] == '\n')
                msg.insert(i + 1, "# ");
        txt += msg + "\n";
        std::ofstream(argv[3], std::ios::binary) << txt;
        printf("minimised in %d runs: %zu ops %zu faults %zu crashes %zu schedule deviations\n%s: %s\n",
               tries,
               m.ops.size(),
               m.faults.size(),
               m.crashes.size(),
               m.devs.size(),
               a.tag.c_str(),
               a.msg.c_str());
        return 0;
    }
    if (cmd == "batch" && argc >= 8)
    {
        auto p = find_prop(argv[2]);
        if (!p)
            return usage();
        uint64_t first = strtoull(argv[3], nullptr, 0), stride = strtoull(argv[4], nullptr, 0);
        double secs = atof(argv[5]);
        std::string out = argv[6];
        bool thorough = !strcmp(argv[7], "thorough");
        uint64_t maxruns = argc > 8 ? strtoull(argv[8], nullptr, 0) : ~0ull;
        auto t0 = std::chrono::steady_clock::now();
        uint64_t runs = 0, ops = 0, failed = 0, steps = 0, switches = 0, syscalls = 0, nontrivial = 0,
                 shorts = 0, cp = 0, cw = 0, torn = 0, tampers = 0, jumps = 0, remounts = 0;
        double simns = 0;
        uint64_t faults[sim::N_CLS] = {};
        std::map<std::string, uint64_t> probes;
        std::unordered_set<uint64_t> traces, scheds;
        std::map<std::string, uint64_t> known;
        std::string viol, sample;
        std::vector<std::string> samples;
        int rc = 0;
        uint64_t repeat_checked = 0;
        for (uint64_t i = 0; i < maxruns; ++i)
        {
            double el
                = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (el > secs)
                break;
            uint64_t seed = first + i * stride;
            Plan pl = p->gen(seed, thorough);
            pl.prop = p->id;
            pl.seed = seed;
            Outcome o = run_once(pl);
            ++runs;
            ops += shared->ops;
            failed += shared->ops_failed;
            steps += shared->steps;
            switches += shared->switches;
            syscalls += shared->syscalls;
            simns += (double)shared->sim_ns;
            shorts += shared->shorts_fired;
            cp += shared->crashes_proc;
            cw += shared->crashes_power;
            torn += shared->torn;
            tampers += shared->tampers;
            jumps += shared->clock_jumps;
            remounts += shared->remounts;
            bool anyf = shared->shorts_fired || shared->crashes_proc || shared->crashes_power
                || shared->tampers || shared->clock_jumps;
            for (int c = 0; c < sim::N_CLS; ++c)
            {
                faults[c] += shared->faults_fired[c];
                anyf = anyf || shared->faults_fired[c];
            }
            for (auto& pr : shared->probes)
                if (pr.name[0])
                    probes[pr.name] += pr.n;
            bool fresh = traces.insert(shared->trace_hash).second;
            scheds.insert(shared->sched_hash);
            if (fresh && shared->ops >= 3 && (p->need != 1 || anyf)
                && (p->need != 2 || shared->switches > 2) && (p->need != 3 || shared->tampers))
                ++nontrivial;
            {
                std::stringstream ss(shared->known);
                std::string l;
                while (std::getline(ss, l))
                    if (!l.empty())
                        ++known[l];
            }
            if (samples.size() < 2 && i >= 1)
            {
                std::string t = pl.text();
                if (t.size() > 1500)
                    t = t.substr(0, 1500) + "...";
                samples.push_back(t);
            }
            if (o.status == 3)
            {
                viol = strf("HARNESS seed %llu: %s", (unsigned long long)seed, o.msg.c_str());
                std::ofstream(out + ".plan", std::ios::binary) << pl.text();
                rc = 2;
                break;
            }
            if (o.status == 2)
            {
                std::ofstream(out + ".plan", std::ios::binary) << pl.text();
                viol = strf("seed %llu %s: %s",
                            (unsigned long long)seed,
                            o.tag.c_str(),
                            o.msg.c_str());
                rc = 1;
                break;
            }
            if (i % 64 == 5)
            {
                // determinism self-check: the same plan again gives the same trace
                uint64_t th = shared->trace_hash;
                run_once(pl);
                ++repeat_checked;
                if (shared->trace_hash != th)
                {
                    viol = strf("HARNESS nondeterministic run, seed %llu", (unsigned long long)seed);
                    std::ofstream(out + ".plan", std::ios::binary) << pl.text();
                    rc = 2;
                    break;
                }
            }
        }
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        std::ofstream f(out);
        f << "{\"runs\":" << runs << ",\"ops\":" << ops << ",\"ops_failed\":" << failed
          << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"syscalls\":" << syscalls
          << ",\"sim_s\":" << simns / 1e9 << ",\"wall_s\":" << el << ",\"shorts\":" << shorts
          << ",\"crash_process\":" << cp << ",\"crash_power\":" << cw << ",\"torn\":" << torn
          << ",\"tampers\":" << tampers << ",\"clock_jumps\":" << jumps
          << ",\"remounts\":" << remounts << ",\"nontrivial\":" << nontrivial
          << ",\"repeat_checked\":" << repeat_checked << ",\"faults\":{";
        bool sep = false;
        for (int c = 0; c < sim::C_COUNT; ++c)
        {
            f << (sep ? "," : "") << '"' << sim::kClsName[c] << "\":" << faults[c];
            sep = true;
        }
        f << "},\"probes\":{";
        sep = false;
        for (auto& [a, b] : probes)
        {
            f << (sep ? "," : "") << '"' << json_esc(a) << "\":" << b;
            sep = true;
        }
        f << "},\"traces\":[";
        sep = false;
        for (auto t : traces)
        {
            f << (sep ? "," : "") << t;
            sep = true;
        }
        f << "],\"scheds\":[";
        sep = false;
        for (auto t : scheds)
        {
            f << (sep ? "," : "") << t;
            sep = true;
        }
        f << "],\"known\":{";
        sep = false;
        for (auto& [a, b] : known)
        {
            f << (sep ? "," : "") << '"' << json_esc(a) << "\":" << b;
            sep = true;
        }
        f << "},\"samples\":[";
        sep = false;
        for (auto& s : samples)
        {
            f << (sep ? "," : "") << '"' << json_esc(s) << '"';
            sep = true;
        }
        f << "],\"rc\":" << rc << ",\"violation\":\"" << json_esc(viol) << "\"}\n";
        f.close();
        return rc;
    }
    return usage();
}
