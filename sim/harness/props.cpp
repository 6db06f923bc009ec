// The properties: how a run is generated and what it executes.
#include "fmt.h"
#include "gen.h"

#include <fcntl.h>

namespace h
{
using W = std::vector<std::pair<const char*, int>>;

// Runs a sequential plan: every operation, then a full comparison, a remount and another one.
static void run_seq(Plan& p)
{
    Engine e(p);
    e.init_volume();
    e.mount();
    for (auto& op : p.ops)
        e.exec(op);
    sim::begin_op(-1);
    e.verify_all("at the end");
    e.unmount();
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    e.check_storage();
    sim::end_op();
}

// Repositories as other releases and other implementations see them: after every unmount the stored
// bytes are decoded by an independent reader and compared with the model.
static void run_s09(Plan& p)
{
    if (p.ci("config"))
        return run_config(p);
    Engine e(p);
    e.init_volume();
    e.mount();
    auto conform = [&](const char* when)
    {
        sim::NoYield ny;
        std::string bad = Fmt(e.v, *sim::disk).compare(e.model, true);
        if (!bad.empty())
            sim::violation("format", strf("%s: %s", when, bad.c_str()));
    };
    for (auto& op : p.ops)
    {
        if (op.k == "remount")
        {
            sim::begin_op(op.id);
            e.unmount();
            conform("after an unmount");
            ++sim::R->remounts;
            e.mount();
            sim::end_op();
        }
        else
            e.exec(op);
    }
    sim::begin_op(-1);
    e.unmount();
    conform("after the last unmount");
    e.mount();
    e.verify_all("after a remount");
    e.unmount();
    sim::end_op();
}
static Plan gen_s01(uint64_t seed, bool thorough)
{
    Gen g("S01", seed);
    g.config(-1);
    g.finish_config();
    g.max_depth = 1;
    g.names = {"f", "g", "h"};
    g.max_size = g.r.oneof<uint64_t>({3000, 40000, 40000, 200000});
    g.p.set("check_xattr", (int64_t)0);
    bool huge = g.r.chance(1, 6);
    if (huge)
    {
        if (g.r.chance(1, 3))
        {
            g.v.block = g.r.oneof<unsigned>({16384, 65536, 70000, 1 << 20});
            g.p.set("block", g.v.block);
        }
        g.pick_far(thorough);
    }
    g.emit("create");
    W w = {{"create", 3}, {"open", 8}, {"close", 5}, {"read", 25}, {"write", 30}, {"append", 6},
           {"ftrunc", 10}, {"trunc", 4}, {"flush", 2}, {"fsync", 2}, {"fstat", 4}, {"stat", 2},
           {"readfile", 4}, {"remount", 1}, {"link", 1}, {"unlink", 1}};
    g.fill(w, (int)g.r.range(10, huge ? 25 : thorough ? 120 : 50));
    return g.p;
}
static Plan gen_s02(uint64_t seed, bool thorough)
{
    Gen g("S02", seed);
    g.config(-1);
    g.finish_config();
    g.names.resize(g.r.range(3, 12));
    if (g.r.chance(1, 6))
        for (size_t n : {g.v.name_max() - 1, g.v.name_max(), g.v.name_max() + 1, g.v.name_max() + (size_t)g.r.range(2, 700)})
            if (g.r.chance(2, 3))
            {
                std::string s(n, 'L');
                for (auto& c : s)
                    c = (char)g.r.range('a', 'z');
                g.names.push_back(s);
            }
    g.max_size = 2000;
    g.p.set("check_xattr", (int64_t)0);
    W w = {{"create", 14}, {"open", 3}, {"close", 8}, {"write", 5}, {"mkdir", 14}, {"rmdir", 8},
           {"unlink", 8}, {"rename", 18}, {"link", 6}, {"symlink", 5}, {"readlink", 3},
           {"ls", 8}, {"stat", 6}, {"opendir", 2}, {"readdirh", 3}, {"closedir", 2}, {"remount", 1},
           {"verify", 1}};
    g.fill(w, (int)g.r.range(10, thorough ? 150 : 60));
    return g.p;
}

// A directory with many entries: the B-tree of the full format, long listings in the lite format.
static Plan gen_s03(uint64_t seed, bool thorough)
{
    Gen g("S03", seed);
    g.config(g.r.chance(4, 5));
    if (g.v.full)
        g.p.set("pad", (int64_t)0);
    g.finish_config();
    g.p.set("check_xattr", (int64_t)0);
    g.max_depth = 1;
    g.max_size = 100;
    g.names.clear();
    int n = (int)g.r.range(10, thorough ? 900 : 260);
    size_t maxlen = g.v.full ? 255 : g.v.plain ? 200 : 120;
    int style = (int)g.r.below(3);
    for (int i = 0; i < n; ++i)
    {
        std::string s;
        if (style == 0)
            s = sim::strf("file%06d", i);
        else
        {
            size_t len = style == 1 ? g.r.range(1, 12) : g.r.range(1, maxlen);
            if (g.r.chance(1, 10))
                len = maxlen;
            for (size_t k = 0; k < len; ++k)
            {
                unsigned c = (unsigned)g.r.range(1, 255);
                if (c == '/' || (k == 0 && c == '.'))
                    c = 'q';
                s.push_back((char)(g.v.plain || style == 2 ? c : 'a' + c % 26));
            }
            if (g.v.plain && s == ".securefs.json")
                s = "x";
        }
        g.names.push_back(s);
    }
    int phases = (int)g.r.range(1, thorough ? 5 : 3);
    for (int ph = 0; ph < phases; ++ph)
    {
        bool grow = ph % 2 == 0 || g.r.chance(1, 3);
        W w = grow ? W{{"mkfile", 30}, {"mkdir", 2}, {"symlink", 1}, {"unlink", 4}, {"rename", 5},
                       {"stat", 3}}
                   : W{{"mkfile", 4}, {"unlink", 30}, {"rmdir", 2}, {"rename", 5}, {"stat", 3}};
        g.fill(w, (int)g.r.range(n / 3 + 2, n + n / 2));
        g.fill({{"ls", 3}, {"remount", 2}, {"tick", 1}, {"verify", 1}}, (int)g.r.range(1, 3));
    }
    return g.p;
}
// Everything at once, with many clean unmounts and mounts in between.
static Plan gen_s04(uint64_t seed, bool thorough)
{
    Gen g("S04", seed);
    g.config(-1);
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.names.resize(g.r.range(4, 12));
    if (thorough && g.r.chance(1, 30))
    {
        // enough closed files to overflow the cache of the file table
        g.names.clear();
        for (int i = 0; i < 3000; ++i)
            g.names.push_back(sim::strf("n%d", i));
        g.max_depth = 1;
        g.max_size = 200;
        g.fill({{"mkfile", 1}}, 2600);
    }
    W w = {{"create", 8}, {"mkfile", 8}, {"open", 8}, {"close", 8}, {"write", 12}, {"append", 4},
           {"ftrunc", 3}, {"trunc", 3}, {"mkdir", 6}, {"rmdir", 2}, {"unlink", 4}, {"rename", 8},
           {"link", 3}, {"symlink", 3}, {"chmod", 3}, {"chown", 3}, {"utimens", 3}, {"setx", 5},
           {"remx", 1}, {"tick", 2}, {"fsync", 1}, {"flush", 1}, {"ls", 2}, {"readfile", 2},
           {"remount", 8}};
    g.fill(w, (int)g.r.range(10, thorough ? 200 : 60));
    return g.p;
}
static Plan gen_s05(uint64_t seed, bool thorough)
{
    Gen g("S05", seed);
    g.config(-1);
    if (g.r.chance(1, 8))
    {
        g.p.set("uid_override", 777);
        g.p.set("gid_override", 778);
    }
    g.finish_config();
    g.names.resize(5);
    g.max_size = 9000;
    g.p.set("check_xattr", (int64_t)0);
    W w = {{"create", 4}, {"mkfile", 4}, {"mkdir", 4}, {"symlink", 1}, {"open", 5}, {"close", 4},
           {"write", 6}, {"ftrunc", 3}, {"trunc", 3}, {"read", 2}, {"chmod", 10}, {"chown", 10},
           {"utimens", 14}, {"stat", 12}, {"fstat", 5}, {"link", 3}, {"rename", 3}, {"unlink", 2},
           {"tick", 6}, {"flush", 2}, {"remount", 2}, {"setx", 1}};
    g.fill(w, (int)g.r.range(8, thorough ? 120 : 50));
    return g.p;
}
static Plan gen_s06(uint64_t seed, bool thorough)
{
    Gen g("S06", seed);
    g.config(-1);
    g.finish_config();
    g.names.resize(3);
    g.max_depth = 1;
    g.max_size = 500;
    g.p.set("check_xattr", 1);
    g.emit("mkfile");
    W w = {{"mkfile", 2}, {"setx", 30}, {"getx", 25}, {"listx", 12}, {"remx", 10}, {"rename", 2},
           {"link", 1}, {"unlink", 1}, {"remount", 1}, {"verify", 1}, {"trunc", 1}, {"chmod", 1}};
    g.fill(w, (int)g.r.range(8, thorough ? 120 : 50));
    return g.p;
}
// Lite format: names longer than the threshold live in a lookup table.
static Plan gen_s07(uint64_t seed, bool thorough)
{
    Gen g("S07", seed);
    g.config(0);
    g.p.set("plain", (int64_t)0);
    int th = g.r.oneof({128, 128, 20, 40, 100});
    g.p.set("longname", th);
    if (g.r.chance(1, 2))
        g.p.set("longsuffix", g.r.oneof<std::string>({"...", ".long", "$L", "~~~"}));
    g.finish_config();
    g.p.set("check_xattr", (int64_t)0);
    g.max_size = 1000;
    g.names.clear();
    for (int i = 0; i < 8; ++i)
    {
        size_t len = g.r.oneof<size_t>({(size_t)th, (size_t)th + 1, (size_t)th + 2, (size_t)th - 1, 250, 255, 180, 5, 256, (size_t)g.r.range(257, 1000)});
        std::string s = sim::strf("N%d-", i);
        while (s.size() < len)
            s.push_back((char)('a' + g.r.below(26)));
        g.names.push_back(s);
    }
    g.names.push_back("short");
    W w = {{"create", 6}, {"mkfile", 12}, {"open", 3}, {"close", 5}, {"write", 3}, {"mkdir", 12},
           {"rmdir", 8}, {"unlink", 10}, {"rename", 22}, {"link", 6}, {"symlink", 6},
           {"readlink", 2}, {"ls", 12}, {"stat", 4}, {"opendir", 1}, {"readdirh", 2},
           {"closedir", 1}, {"remount", 2}, {"verify", 1}};
    g.fill(w, (int)g.r.range(6, thorough ? 100 : 40));
    return g.p;
}
// Case folding and Unicode normalisation.
static Plan gen_s08(uint64_t seed, bool thorough)
{
    Gen g("S08", seed);
    g.config(-1);
    g.p.set("plain", (int64_t)0);
    if (g.p.ci("full"))
    {
        int x = (int)g.r.range(1, 3);
        g.p.set("ci", x & 1);
        g.p.set("uni", x >> 1);
    }
    else
    {
        int x = (int)g.r.range(1, 3);
        g.p.set("fold", x & 1);
        g.p.set("nfc", x >> 1);
    }
    g.finish_config();
    g.p.set("check_xattr", (int64_t)0);
    g.max_size = 500;
    g.names = unicode_names();
    for (int i = (int)g.r.below(10); i > 0; --i)
        g.names.erase(g.names.begin() + g.r.below(g.names.size()));
    W w = {{"create", 5}, {"mkfile", 14}, {"open", 3}, {"close", 5}, {"write", 2}, {"mkdir", 12},
           {"rmdir", 6}, {"unlink", 10}, {"rename", 22}, {"link", 6}, {"symlink", 3},
           {"ls", 12}, {"stat", 10}, {"remount", 2}, {"verify", 1}, {"readfile", 3}};
    g.fill(w, (int)g.r.range(6, thorough ? 120 : 50));
    return g.p;
}

static Plan gen_s09(uint64_t seed, bool thorough)
{
    Gen g("S09", seed);
    if (g.r.chance(1, 15))
    {
        gen_config(g.p, g.r, false);
        return g.p;
    }
    g.config(-1);
    bool full = g.p.ci("full");
    if (full && g.r.chance(1, 4))
        g.p.set(g.r.chance(1, 2) ? "ci" : "uni", 1);
    if (!full && g.r.chance(1, 3))
    {
        g.p.set("plain", (int64_t)0);
        g.p.set("longname", g.r.oneof({20, 40, 128}));
        if (g.r.chance(1, 2))
            g.p.set("longsuffix", g.r.oneof<std::string>({"...", ".long", "$L"}));
    }
    g.finish_config();
    g.p.set("check_xattr", 1);
    g.max_size = g.r.oneof<uint64_t>({3000, 20000, 60000});
    bool huge = g.r.chance(1, 8);
    if (huge)
        g.pick_far(false);
    if (!full && !g.v.plain)
        for (int i = 0; i < 4; ++i)
        {
            std::string s = sim::strf("L%d", i);
            size_t len = g.r.range(10, g.v.long_threshold > 0 ? g.r.chance(1, 8) ? 900 : 250 : 140);
            while (s.size() < len)
                s.push_back((char)('a' + g.r.below(26)));
            g.names.push_back(s);
        }
    if (full && g.r.chance(1, 3))
        for (int i = 0; i < 60; ++i)
            g.names.push_back(sim::strf("entry-%d", i));
    W w = {{"create", 6}, {"mkfile", 12}, {"open", 6}, {"close", 6}, {"write", 12}, {"append", 3},
           {"ftrunc", 4}, {"trunc", 4}, {"mkdir", 6}, {"rmdir", 2}, {"unlink", 6}, {"rename", 8},
           {"link", 3}, {"symlink", 6}, {"chmod", 2}, {"chown", 2}, {"utimens", 2}, {"setx", 6},
           {"remx", 2}, {"tick", 1}, {"readfile", 1}, {"remount", 4}};
    g.fill(w, (int)g.r.range(10, huge ? 40 : thorough ? 200 : 70));
    return g.p;
}

// Any history, with transfers that move fewer bytes than asked for and calls interrupted by signals.
static Plan gen_f02(uint64_t seed, bool thorough)
{
    Rng r(seed * 31 + 7);
    Plan p;
    switch (r.below(6))
    {
    case 0:
    case 1:
        p = gen_s01(seed, thorough);
        break;
    case 2:
        p = gen_s02(seed, thorough);
        break;
    case 3:
        p = gen_s06(seed, thorough);
        break;
    case 4:
        p = gen_s07(seed, thorough);
        break;
    default:
        p = gen_s09(seed, thorough);
    }
    p.prop = "F02";
    p.set("shortio", r.oneof({0, 20, 100, 400}));
    p.set("eintr", r.oneof({0, 20, 100}));
    if (!p.ci("shortio") && !p.ci("eintr"))
        p.set("shortio", 200);
    return p;
}

static const std::vector<Prop> kProps = {
    {"S01", gen_s01, run_seq, "file content"},
    {"S02", gen_s02, run_seq, "name space"},
    {"S03", gen_s03, run_seq, "large directories"},
    {"S04", gen_s04, run_seq, "clean unmounts"},
    {"S05", gen_s05, run_seq, "metadata"},
    {"S06", gen_s06, run_seq, "extended attributes"},
    {"S07", gen_s07, run_seq, "long names"},
    {"S08", gen_s08, run_seq, "case folding and normalisation"},
    {"S09", gen_s09, run_s09, "storage format"},
    {"F02", gen_f02, run_s09, "short transfers and interrupted calls", 1},
};
extern const std::vector<Prop> kCrashProps, kFaultProps, kTamperProps, kCmdProps, kNonceProps, kConcProps, kLifeProps, kLogProps, kPassProps;
const std::vector<Prop>& props()
{
    static std::vector<Prop> all;
    if (all.empty())
        for (auto* l : {&kProps, &kCrashProps, &kFaultProps, &kTamperProps, &kCmdProps, &kNonceProps, &kConcProps, &kLifeProps, &kLogProps, &kPassProps})
            all.insert(all.end(), l->begin(), l->end());
    return all;
}
const Prop* find_prop(const std::string& id)
{
    for (auto& p : props())
        if (id == p.id)
            return &p;
    return nullptr;
}
}    // namespace h
