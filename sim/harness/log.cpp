// N02: what is logged reveals nothing and changes nothing. The log file is a stream of the simulation
// (fopen of a path below /simlog); the runs are those of other properties, with logging switched on.
#include "gen.h"
#include "fmt.h"
#include "nonce.h"
#include "log.h"

#include "commands.h"
#include "logger.h"
#include "params.pb.h"

#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <stdio_ext.h>
#include <unistd.h>

namespace h
{
using sim::strf;
using std::string;
Secrets* g_secrets = nullptr;
std::set<string> g_secret_words;
namespace
{
struct Sink
{
    FILE* fp = nullptr;
    int owner = -1, depth = 0;
    string line;
    uint64_t writes = 0, lost = 0, messages = 0;
    bool quoting = false;    // the last message quotes a SQLite error
    unsigned fail_per_mille = 0;
    uint64_t seed = 0;
    bool sensitive = false;
} g;
const char* const kLevels[] = {"[Trace] [0x", "[Verbose] [0x", "[Info] [0x", "[Warning] [0x", "[Error] [0x"};

// undoes the escapes of names and buffers
string plain(std::string_view s)
{
    string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] != '\\' || i + 1 == s.size())
        {
            o.push_back(s[i]);
            continue;
        }
        char c = s[++i];
        auto oct = [](char x) { return x >= '0' && x <= '7'; };
        if (oct(c) && i + 2 < s.size() && oct(s[i + 1]) && oct(s[i + 2]))
        {
            o.push_back((char)((c - '0') * 64 + (s[i + 1] - '0') * 8 + (s[i + 2] - '0')));
            i += 2;
        }
        else if (c == 'x' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2]))
        {
            o.push_back((char)strtol(string(s.substr(i + 1, 2)).c_str(), nullptr, 16));
            i += 2;
        }
        else
            o.push_back(c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c);
    }
    return o;
}
void reveal(std::string_view s, const char* where)
{
    if (!g_secrets)
        return;
    string u = plain(s);
    int k = g.sensitive ? 0 : std::max(g_secrets->found(s), g_secrets->found(u));
    if (!k)
        for (auto& w : g_secret_words)
            if (s.find(w) != s.npos || u.find(w) != u.npos)
                k = 3;
    if (k)
        sim::violation("log-reveals",
                       strf("%s contains %s: %s", where, k == 3 ? "a password" : "contents of files, values or keys",
                            string(s.substr(0, 400)).c_str()));
}
void message(const string& s)
{
    if (s.empty())
        return;    // a message that ends with a new line of its own
    ++g.messages;
    if (getenv("SIM_SHOW_LOG"))
        fprintf(stderr, "LOG %s\n", s.c_str());
    reveal(s, "the log");
    if (g.lost)
        return;    // parts of messages are missing
    size_t heads = 0, at = string::npos;
    for (auto* l : kLevels)
        for (size_t i = s.find(l); i != s.npos; i = s.find(l, i + 1))
        {
            ++heads;
            at = std::min(at, i);
        }
    // SQLite quotes the lines of a damaged schema in its errors.
    if (heads == 0 && g.quoting)
        return;
    g.quoting = s.find("SQLite error") != s.npos;
    if (heads != 1 || at != 0 || s.find("]    ") == s.npos)
        sim::violation("log-mixed",
                       "a line of the log is not one whole message: " + s.substr(0, 300));
}
ssize_t sink_write(void*, const char* buf, size_t n)
{
    ++g.writes;
    if (g.fail_per_mille && sim::mix64(g.seed, g.writes) % 1000 < g.fail_per_mille)
    {
        ++g.lost;
        errno = g.writes % 2 ? ENOSPC : EIO;
        return 0;
    }
    for (size_t i = 0; i < n; ++i)
        if (buf[i] == '\n')
        {
            message(g.line);
            g.line.clear();
        }
        else
            g.line.push_back(buf[i]);
    return (ssize_t)n;
}
int sink_close(void*)
{
    g.fp = nullptr;
    return 0;
}
FILE* open_sink()
{
    static cookie_io_functions_t io{nullptr, sink_write, nullptr, sink_close};
    sim::NoYield ny;
    g.fp = fopencookie(nullptr, "w", io);
    __fsetlocking(g.fp, FSETLOCKING_BYCALLER);
    return g.fp;
}
template <class F>
F next(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
}    // namespace
string g_printed;
bool g_unmask = false;
static void on_print(FILE* fp, const string& s)
{
    if (fp == stdout && g_printed.size() < 100000)
        g_printed += s;
    if (fp == g.fp && g.fp)
        sim::yield(31);
    else if ((fp == stdout && !g_unmask) || fp == stderr)
        reveal(s, fp == stdout ? "the output" : "the error output");
}
static FILE* on_fopen(const char* path) { return strncmp(path, "/simlog/", 8) ? nullptr : open_sink(); }
static const bool g_registered = (sim::g_on_print = on_print, sim::g_on_fopen = on_fopen, true);
void log_args(const Plan& p, std::vector<string>& a)
{
    if (p.c.count("log") == 0)
        return;
    a.insert(a.end(), {"--log", "/simlog/mount"});
    if (p.ci("log") == 0)
        a.push_back("--trace");
    if (p.ci("log") == 1)
        a.push_back("--verbose");
    if (p.ci("sens"))
        a.push_back("--allow-sensitive-logging");
}
static const char* const kBases[] = {"F01", "K02", "K01", "M01", "C04", "P01", "T01", "T02", "S01", "S06"};
static void run_n02(Plan& p)
{
    auto* base = find_prop(p.cs("base"));
    if (!base)
        sim::harness_error("no such base");
    static Secrets sec;
    g_secrets = &sec;
    g_secret_words.insert(kMountPassword);
    g.sensitive = p.ci("sens") != 0;
    g.fail_per_mille = (unsigned)p.ci("logfail");
    g.seed = p.seed;
    for (auto& op : p.ops)
        if (op.len > 0 && op.len < 1000000 && op.ds)
            sec.add(gen_data(op.ds, op.len), false);
    auto v = VolCfg::from(p);
    for (int i = 0; i < 5; ++i)
        sec.add(key_bytes(v.keyseed, i), false);
    if (p.cs("base") != "M01")
    {
        securefs::global_logger = securefs::Logger::create_file_logger("/simlog/log");
        securefs::global_logger->set_level((securefs::LoggingLevel)p.ci("log"));
    }
    p.prop = base->id;
    base->run(p);
    if (g.owner >= 0)
        sim::violation("log-lock", "the log is still locked at the end");
    securefs::global_logger.reset();
    if (g.messages)
        sim::probe("messages logged");
    if (g.lost)
        sim::probe("messages lost");
}
static Plan gen_n02(uint64_t seed, bool thorough)
{
    Rng r(sim::mix64(seed, 0x109));
    auto* base = find_prop(kBases[r.below(std::size(kBases))]);
    Plan p = base->gen(seed, thorough);
    p.prop = "N02";
    p.set("base", string(base->id));
    p.c.erase("bg");    // its log would be that of another process
    p.c.erase("bgkill");
    p.set("log", r.oneof<int64_t>({0, 0, 0, 1, 2, 4}));
    p.set("sens", (int64_t)r.chance(1, 5));
    if (r.chance(1, 4))
        p.set("logfail", r.oneof<int64_t>({5, 100, 1000}));
    if (base->id == string("C04"))
        p.set("info", (int64_t)1);
    return p;
}
extern const std::vector<Prop> kLogProps;
const std::vector<Prop> kLogProps = {{"N02", gen_n02, run_n02, "logs"}};
}    // namespace h

using h::g;
extern "C"
{
void flockfile(FILE* fp)
{
    if (!g.fp || fp != g.fp)
        return h::next<void (*)(FILE*)>("flockfile")(fp);
    sim::yield(30);
    while (g.owner >= 0 && g.owner != sim::self_id())
        sim::block_on(&g.owner);
    g.owner = sim::self_id();
    ++g.depth;
    sim::hb_acquire(&g.owner);
}
void funlockfile(FILE* fp)
{
    if (!g.fp || fp != g.fp)
        return h::next<void (*)(FILE*)>("funlockfile")(fp);
    if (g.owner != sim::self_id())
        sim::violation("mutex-misuse", "the log is unlocked by a thread that has not locked it");
    sim::hb_release(&g.owner);
    if (--g.depth == 0)
    {
        g.owner = -1;
        sim::wake_all(&g.owner);
    }
}
int fflush(FILE* fp)
{
    if (g.fp && fp == g.fp)
        sim::yield(32);
    return h::next<int (*)(FILE*)>("fflush")(fp);
}
}
