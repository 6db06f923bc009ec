// The command line: creating repositories, changing passwords (C04) and migrating long names (C05),
// with crashes and I/O errors in them.
#include "crash.h"
#include "nonce.h"
#include "log.h"

#include "commands.h"
#include "params_io.h"
#include "platform.h"

#include <google/protobuf/util/json_util.h>

#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>

namespace h
{
using std::string;
struct Cred
{
    string pass, key;    // key: path
    bool operator==(const Cred& o) const { return pass == o.pass && key == o.key; }
    string effective() const { return pass.empty() ? " " : pass; }
};
struct Cmds
{
    Engine e;
    Plan& plan;
    std::vector<Cred> creds;
    securefs::DecryptedSecurefsParams params;    // what opens now
    int cur = -1;                                // with these credentials; -1: nothing was created yet
    string config_path;
    bool legacy = false;
    std::shared_ptr<Watch> watch;    // N01

    explicit Cmds(Plan& p) : e(p), plan(p)
    {
        Rng r(sim::mix64(p.seed, 4711));
        ::mkdir("/simroot/keys", 0700);
        static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789 _!\xc3\xa4";
        for (int i = 0; i < 4; ++i)
        {
            Cred c;
            int kind = (int)r.below(3);
            if (kind != 1)
            {
                size_t n = r.oneof({1, 8, 30});
                c.pass = sim::strf("p%d", i);
                while (n--)
                    c.pass.push_back(al[r.below(sizeof(al) - 1)]);
            }
            if (kind != 0)
            {
                c.key = sim::strf("/simroot/keys/k%d", i);
                string data = gen_data(r.next() | 1, r.oneof({0, 1, 32, 4096, 5000})) + sim::strf("#%d", i);
                int fd = ::open(c.key.c_str(), O_WRONLY | O_CREAT, 0600);
                if (fd < 0 || ::write(fd, data.data(), data.size()) != (ssize_t)data.size())
                    sim::harness_error("cannot write a key file");
                ::close(fd);
            }
            creds.push_back(c);
        }
        legacy = p.ci("legacy");
        config_path = p.ci("extconfig") ? "/simroot/keys/config" : g_data_dir + (legacy ? "/.securefs.json" : "/.config.pb");
    }
    void fail(const Op& op, const string& tag, const string& msg) { e.fail(op, tag, msg); }
    int run(std::vector<string> a)
    {
        a.insert(a.begin(), "securefs");
        if (plan.ci("extconfig"))
            a.insert(a.end(), {"--config", config_path});
        std::vector<const char*> v;
        for (auto& s : a)
            v.push_back(s.c_str());
        v.push_back(nullptr);
        return securefs::commands_main((int)a.size(), v.data());
    }
    void argon(std::vector<string>& a)
    {
        a.insert(a.end(), {"--argon2-t", "1", "--argon2-m", plan.cs("argon_m", "8"), "--argon2-p", "1"});
    }
    static string slurp(const string& path, bool* there)
    {
        auto* i = sim::disk->get(sim::disk->resolve(path));
        *there = i != nullptr;
        return i ? i->read(0, i->size) : "";
    }
    // tries credentials on a configuration as it is stored
    bool opens(const Cred& c, securefs::DecryptedSecurefsParams* out)
    {
        bool there;
        string content = slurp(config_path, &there);
        if (!there)
            return false;
        try
        {
            auto ks = c.key.empty() ? nullptr : securefs::OSService::get_default().open_file_stream(c.key, O_RDONLY, 0);
            string pw = c.effective();
            *out = securefs::decrypt(content, {(const unsigned char*)pw.data(), pw.size()}, ks.get());
            return true;
        }
        catch (const std::exception&)
        {
            return false;
        }
    }
    void mount(const Op& op)
    {
        e.v.given = std::make_shared<securefs::DecryptedSecurefsParams>(params);
        try
        {
            e.mount();
        }
        catch (const std::exception& x)
        {
            fail(op, "mount", string("the repository cannot be mounted: ") + x.what());
        }
    }
    void tree(const Op& op, const char* when)
    {
        sim::begin_op(-6);
        mount(op);
        string bad = e.compare_tree(e.model, true);
        if (!bad.empty())
            fail(op, "tree", sim::strf("%s: %s", when, bad.c_str()));
        e.unmount();
        sim::end_op();
    }
    // Which of the credentials open the configuration, and what they find.
    struct State
    {
        std::set<int> open;
        securefs::DecryptedSecurefsParams p;
        bool there = false;
    };
    State state(const Op& op)
    {
        State s;
        slurp(config_path, &s.there);
        sim::begin_op(-5);
        for (int i = 0; i < (int)creds.size(); ++i)
        {
            securefs::DecryptedSecurefsParams p;
            if (opens(creds[i], &p))
            {
                if (!s.open.empty() && p.SerializeAsString() != s.p.SerializeAsString())
                    fail(op, "config", "two credentials open different repositories");
                s.open.insert(i);
                s.p = p;
            }
        }
        sim::end_op();
        if (s.open.size() > 1)
            fail(op, "config", "more than one of the credentials open the repository");
        return s;
    }
    static string brief(const State& s)
    {
        return !s.there ? "there is no configuration" : s.open.empty() ? "nothing opens the configuration"
                                                                     : sim::strf("credentials %d open it", *s.open.begin());
    }
    std::vector<string> create_args(const Op& op)
    {
        std::vector<string> a = {"create", g_data_dir};
        const Cred& c = creds[op.a];
        if (!c.pass.empty())
            a.insert(a.end(), {"--pass", c.pass});
        if (!c.key.empty())
            a.insert(a.end(), {"--keyfile", c.key});
        if (!c.key.empty() && !c.pass.empty() && op.b)
            a.push_back("--askpass");
        const VolCfg& v = e.v;
        a.insert(a.end(), {"--format", v.full ? "full" : "lite", "--block-size", std::to_string(v.block), "--iv-size",
                           std::to_string(v.iv), "--max-padding", std::to_string(v.pad)});
        if (!v.full)
        {
            a.insert(a.end(), {"--long-name-threshold", std::to_string(v.long_threshold)});
            if (!v.long_suffix.empty())
                a.insert(a.end(), {"--long-name-suffix", v.long_suffix});
        }
        else
        {
            if (v.ci)
                a.insert(a.end(), {"--case", "insensitive"});
            if (v.uni)
                a.insert(a.end(), {"--uninorm", "insensitive"});
        }
        argon(a);
        return a;
    }
    void check_created(const Op& op, const securefs::DecryptedSecurefsParams& p)
    {
        const VolCfg& v = e.v;
        auto& s = p.size_params();
        auto bad = [&](const char* what) { fail(op, "params", sim::strf("the new repository was created with another %s than asked for", what)); };
        if ((int)s.block_size() != v.block)
            bad("block size");
        if ((int)s.iv_size() != v.iv)
            bad("IV size");
        if ((int)s.max_padding_size() != v.pad)
            bad("padding size");
        if (p.has_full_format_params() != v.full)
            bad("format");
        std::set<string> keys;
        size_t n = 0;
        auto key = [&](const string& k)
        {
            ++n;
            if (k.size() == 32 && k != string(32, '\0'))
                keys.insert(k);
        };
        if (v.full)
        {
            auto& f = p.full_format_params();
            key(f.master_key());
            if (f.case_insensitive() != v.ci || f.unicode_normalization_agnostic() != v.uni)
                bad("name comparison");
        }
        else
        {
            auto& l = p.lite_format_params();
            key(l.name_key());
            key(l.content_key());
            key(l.xattr_key());
            key(l.padding_key());
            if ((int)l.long_name_threshold() != v.long_threshold)
                bad("threshold for long names");
        }
        if (keys.size() != n)
            fail(op, "params", "the keys of the new repository are not distinct keys of 32 bytes");
    }
    struct Run
    {
        int rc = 0;
        bool crashed = false, faulted = false, power = false;
    };
    // Runs a command, with the crash or the faults the plan has for it.
    Run command(const Op& op, const std::vector<string>& args)
    {
        Run res;
        if (e.mnt)
            e.unmount();
        const sim::CrashSpec* cs = nullptr;
        for (auto& c : plan.crashes)
            if (c.op == op.id)
                cs = &c;
        if (cs)
            sim::journal_enable(cs->power);
        uint64_t f0 = sim::faults_total();
        ++sim::R->ops;
        sim::begin_op(op.id);
        res.rc = run(args);
        res.faulted = sim::faults_total() != f0;
        if (cs)
        {
            sim::probe(sim::crash_fired() ? "crash inside a command" : "crash after a command");
            if (sim::crash_fired())
                res.crashed = true;
            else
                sim::force_crash_now(*cs);
            int at;
            bool power;
            auto image = sim::take_crash_image(&power, &at);
            res.power = power;
            sim::journal_enable(false);
            sim::install_disk(image);
        }
        sim::trace("command %s rc=%d crashed=%d", op.k.c_str(), res.rc, res.crashed);
        sim::end_op();
        return res;
    }
    void take(const State& s)
    {
        cur = *s.open.begin();
        params = s.p;
        if (g_secrets)
        {
            auto& l = params.lite_format_params();
            for (auto* k : {&l.name_key(), &l.content_key(), &l.xattr_key(), &l.padding_key(),
                            &params.full_format_params().master_key()})
                if (!k->empty())
                    g_secrets->add(*k, false);
            for (auto& c : creds)
                if (c.pass.size() >= 8)
                    g_secret_words.insert(c.pass);
        }
        if (watch)
        {
            auto& l = params.lite_format_params();
            for (auto* k : {&l.name_key(), &l.content_key(), &l.xattr_key(), &l.padding_key(),
                            &params.full_format_params().master_key()})
                if (!k->empty())
                    watch->secret(*k, false);
        }
    }
    void create(const Op& op)
    {
        if (cur >= 0)
        {
            // a repository is not overwritten
            Run r = command(op, create_args(op));
            if (r.rc == 0 && !r.crashed)
                fail(op, "create", "creating a repository where there is one succeeds");
            same(op, "after a refused creation");
            return;
        }
        if (legacy)
        {
            string c = legacy_config(plan, creds[op.a].effective(), !creds[op.a].key.empty(), keydata(op.a), &params);
            ::mkdir(g_data_dir.c_str(), 0755);
            int fd = ::open(config_path.c_str(), O_WRONLY | O_CREAT, 0644);
            if (::write(fd, c.data(), c.size()) != (ssize_t)c.size())
                sim::harness_error("cannot write the configuration");
            ::close(fd);
            cur = (int)op.a;
            State s = state(op);
            if (s.open != std::set<int>{cur} || s.p.SerializeAsString() != params.SerializeAsString())
                fail(op, "legacy", "a configuration in the old form does not open");
            return;
        }
        Run r = command(op, create_args(op));
        State s = state(op);
        bool clean = !r.crashed && !r.faulted && !r.power;
        if (s.open.empty())
        {
            if (clean)
                fail(op, "create", sim::strf("creating a repository returns %d, and %s", r.rc, brief(s).c_str()));
            if (r.rc == 0 && !r.crashed && !r.power)
                fail(op, "create-lost", "creating a repository succeeds in spite of an I/O error, but " + brief(s));
            // not created: it must be possible to try again
            Op again = op;
            again.id = op.id + 100000;
            Run r2 = command(again, create_args(op));
            s = state(op);
            if (r2.rc != 0 || s.open.empty())
                fail(op, "create-blocked",
                     sim::strf("after an interrupted creation, creating the repository again returns %d, and %s", r2.rc,
                               brief(s).c_str()));
        }
        if (s.open != std::set<int>{(int)op.a})
            fail(op, "create", "the repository opens with other credentials than it was created with");
        check_created(op, s.p);
        take(s);
        tree(op, "after the creation");
    }
    string keydata(int i)
    {
        bool there;
        return creds[i].key.empty() ? "" : slurp(creds[i].key, &there);
    }
    void same(const Op& op, const char* when)
    {
        State s = state(op);
        if (s.open != std::set<int>{cur})
            fail(op, "config", string(when) + ", the credentials of the repository do not open it: " + brief(s));
        if (s.p.SerializeAsString() != params.SerializeAsString())
            fail(op, "config", string(when) + ", the credentials open a repository with other parameters");
    }
    void chpass(const Op& op)
    {
        if (cur < 0)
            return;
        bool right = (int)op.a == cur;
        const Cred &o = creds[op.a], &n = creds[op.b];
        std::vector<string> a = {"chpass", g_data_dir};
        if (!o.pass.empty())
            a.insert(a.end(), {"--oldpass", o.pass});
        if (!o.key.empty())
            a.insert(a.end(), {"--oldkeyfile", o.key});
        if (!n.pass.empty())
            a.insert(a.end(), {"--newpass", n.pass});
        if (!n.key.empty())
            a.insert(a.end(), {"--newkeyfile", n.key});
        argon(a);
        Run r = command(op, a);
        State s = state(op);
        std::set<int> allowed;
        bool done = right && r.rc == 0;
        if (r.crashed || r.power || r.faulted || !done)
            allowed.insert(cur);
        if (right && (done || r.faulted || r.crashed || r.power))
            allowed.insert((int)op.b);
        if (done && !r.crashed && !r.power)
            allowed = {(int)op.b};
        if (right && r.rc != 0 && !r.faulted && !r.crashed && !r.power)
            fail(op, "chpass", sim::strf("changing the password returns %d", r.rc));
        if (!right && r.rc == 0)
            fail(op, "chpass", "changing the password succeeds with the wrong old credentials");
        const char* how = r.crashed ? "an interrupted" : r.power ? "a power loss after a" : r.rc ? "a failed" : "a successful";
        if (s.open.empty() || !allowed.count(*s.open.begin()))
            fail(op, "chpass-state",
                 sim::strf("after %s change of credentials %d to %d, %s", how, (int)op.a, (int)op.b, brief(s).c_str()));
        if (s.p.SerializeAsString() != params.SerializeAsString())
            fail(op, "chpass-params", sim::strf("after %s change of credentials, the repository has other parameters", how));
        take(s);
        tree(op, "after a change of credentials");
    }
    // What the info command printed are the parameters, without the keys unless asked for.
    void shown(const Op& op)
    {
        securefs::DecryptedSecurefsParams p, want = params;
        if (!google::protobuf::util::JsonStringToMessage(g_printed, &p).ok())
            fail(op, "info-output", "the output of the info command is not the parameters: " + show(g_printed, 200));
        if (!op.b)
        {
            for (auto* x : {&p, &want})
            {
                if (auto* l = x->has_lite_format_params() ? x->mutable_lite_format_params() : nullptr)
                    for (auto* k : {l->mutable_content_key(), l->mutable_name_key(), l->mutable_xattr_key(),
                                    l->mutable_padding_key()})
                    {
                        if (x == &p && !k->empty())
                            fail(op, "info-keys", "the info command prints keys without having been asked to");
                        k->clear();
                    }
                if (auto* f = x->has_full_format_params() ? x->mutable_full_format_params() : nullptr)
                {
                    if (x == &p && !f->master_key().empty())
                        fail(op, "info-keys", "the info command prints keys without having been asked to");
                    f->clear_master_key();
                }
            }
        }
        string a, b;
        google::protobuf::util::JsonPrintOptions o;
        o.always_print_primitive_fields = true;
        if (!google::protobuf::util::MessageToJsonString(p, &a, o).ok()
            || !google::protobuf::util::MessageToJsonString(want, &b, o).ok() || a != b)
            fail(op, "info-output", "the info command prints " + a + " instead of " + b);
        sim::probe(op.b ? "parameters shown with keys" : "parameters shown");
    }
    void info(const Op& op)
    {
        if (cur < 0)
            return;
        std::vector<string> a = {"info", g_data_dir};
        const Cred& c = creds[op.a];
        if (!c.pass.empty())
            a.insert(a.end(), {"--pass", c.pass});
        if (!c.key.empty())
            a.insert(a.end(), {"--keyfile", c.key});
        if (op.b)
            a.push_back("--unmask");
        g_printed.clear();
        g_unmask = op.b != 0;
        Run r = command(op, a);
        g_unmask = false;
        bool ok = (int)op.a == cur;
        if (!r.crashed && r.rc == 0)
            shown(op);
        if (!r.faulted && !r.crashed && (r.rc == 0) != ok)
            fail(op, "info", sim::strf("the info command returns %d with credentials that are %s", r.rc, ok ? "right" : "wrong"));
        same(op, "after the info command");
    }
    bool any_link()
    {
        bool l = false;
        e.model.walk([&](const string&, const NodeP& n) { l = l || n->kind == KL; });
        return l;
    }
    std::vector<string> migrate_args(const Op& op)
    {
        std::vector<string> a = {"migrate-long-name", g_data_dir, "--long-name-suffix", op.s};
        const Cred& c = creds[op.a];
        if (!c.pass.empty())
            a.insert(a.end(), {"--pass", c.pass});
        if (!c.key.empty())
            a.insert(a.end(), {"--keyfile", c.key});
        argon(a);
        return a;
    }
    void migrate(const Op& op)
    {
        if (cur < 0)
            return;
        bool right = (int)op.a == cur;
        bool old_form = !e.v.full && params.lite_format_params().long_name_threshold() == 0;
        bool possible = right && !e.v.full && !(old_form && any_link());
        Run r = command(op, migrate_args(op));
        State s = state(op);
        bool disturbed = r.crashed || r.power || r.faulted;
        if (!possible && r.rc == 0)
            fail(op, "migrate", "a migration that is not possible succeeds");
        if (possible && !disturbed && r.rc != 0)
            fail(op, "migrate", sim::strf("the migration returns %d", r.rc));
        if (s.open != std::set<int>{cur})
            fail(op, "migrate-config", "after the migration, " + brief(s));
        auto migrated = [&](const securefs::DecryptedSecurefsParams& p)
        { return p.lite_format_params().long_name_suffix() == op.s && p.lite_format_params().long_name_threshold() > 0; };
        auto keys_of = [](securefs::DecryptedSecurefsParams p)
        {
            p.mutable_lite_format_params()->clear_long_name_suffix();
            p.mutable_lite_format_params()->clear_long_name_threshold();
            return p.SerializeAsString();
        };
        if (!possible)
        {
            same(op, "after a refused migration");
            return tree(op, "after a refused migration");
        }
        if (keys_of(s.p) != keys_of(params))
            fail(op, "migrate-params", "the migration changed other parameters");
        if (!old_form && s.p.lite_format_params().long_name_threshold() != params.lite_format_params().long_name_threshold())
            fail(op, "migrate-params", "the migration changed the threshold");
        if (!migrated(s.p))
        {
            if (!disturbed || (r.rc == 0 && !r.crashed && !r.power))
                fail(op, "migrate", "the migration succeeds without effect");
            if (s.p.SerializeAsString() != params.SerializeAsString())
                fail(op, "migrate-params", "an interrupted migration changed the parameters");
            // it can be completed by running it again
            Op again = op;
            again.id = op.id + 100000;
            Run r2 = command(again, migrate_args(op));
            s = state(op);
            if (r2.rc != 0 || s.open != std::set<int>{cur} || !migrated(s.p))
                fail(op, "migrate-blocked",
                     sim::strf("an interrupted migration cannot be completed: running it again returns %d, and %s", r2.rc,
                               brief(s).c_str()));
        }
        params = s.p;
        e.v.long_suffix = op.s;
        e.v.long_threshold = (int)params.lite_format_params().long_name_threshold();
        tree(op, "after the migration");
    }
    void run_plan()
    {
        for (auto& op : plan.ops)
        {
            if (watch)
                watch->before(op);
            if (op.k == "create")
                create(op);
            else if (op.k == "chpass")
                chpass(op);
            else if (op.k == "info")
                info(op);
            else if (op.k == "migrate")
                migrate(op);
            else if (cur >= 0)
            {
                if (!e.mnt)
                {
                    sim::begin_op(-6);
                    mount(op);
                    sim::end_op();
                }
                e.exec(op);
            }
            if (watch)
            {
                bool there;
                watch->config(op, slurp(config_path, &there));
                watch->after(op);
            }
        }
        if (cur < 0)
            return;
        if (e.mnt)
        {
            sim::begin_op(-1);
            e.unmount();
            sim::end_op();
        }
        Op fin;
        fin.k = "final";
        tree(fin, "at the end");
    }
};
static void run_cmds(Plan& p)
{
    sim::begin_op(-1000);
    auto c = std::make_unique<Cmds>(p);
    sim::end_op();
    c->run_plan();
}
void run_n01_commands(Plan& p)
{
    sim::begin_op(-1000);
    auto c = std::make_unique<Cmds>(p);
    c->watch = std::make_shared<Watch>(c->e.v);
    for (auto& cr : c->creds)
        c->watch->secret(cr.pass, true);
    sim::end_op();
    c->run_plan();
}
void gen_n01_commands(Gen& g, bool thorough)
{
    g.p.add("create").a = g.r.below(4);
    int cred = (int)g.p.ops.back().a;
    W w = {{"mkfile", 12}, {"mkdir", 5}, {"rename", 2}, {"setx", 3}, {"symlink", 2}};
    int rounds = (int)g.r.range(1, thorough ? 8 : 4);
    while (rounds--)
    {
        g.fill(w, (int)g.r.range(0, 6));
        auto& o = g.p.add(!g.p.ci("full") && g.r.chance(1, 3) ? "migrate" : "chpass");
        o.a = cred;
        if (o.k == "migrate")
            o.s = g.r.oneof<const char*>({".ll", ".x", "..."});
        else
            o.b = cred = (int)g.r.below(4);
    }
}
// a crash or faults for the last operation of the plan
static void disturb(Gen& g, int span)
{
    int id = g.p.ops.back().id;
    switch (g.r.below(4))
    {
    case 0:
        return;
    case 1:
    {
        static const std::vector<std::pair<int, std::vector<int>>> kinds = {
            {sim::C_OPEN, {EIO, EMFILE, EACCES, ENOSPC}},
            {sim::C_READ, {EIO}},
            {sim::C_WRITE, {EIO, ENOSPC, EDQUOT}},
            {sim::C_TRUNC, {EIO, ENOSPC}},
            {sim::C_FSYNC, {EIO, ENOSPC}},
            {sim::C_STAT, {EIO, EACCES}},
            {sim::C_MKDIR, {EIO, ENOSPC, EACCES}},
            {sim::C_RENAME, {EIO, ENOSPC, EACCES}},
            {sim::C_LINK, {EIO, ENOSPC}},
            {sim::C_UNLINK, {EIO, EACCES}},
            {sim::C_OPENDIR, {EIO, EMFILE}},
            {sim::C_READDIR, {EIO}},
            {sim::C_LOCK, {EIO, ENOLCK}},
            {sim::C_RANDOM, {EIO}},
        };
        int n = (int)g.r.oneof({1, 1, 2});
        while (n--)
        {
            sim::Fault f;
            f.op = id;
            auto& k = kinds[g.r.below(kinds.size())];
            f.cls = k.first;
            f.err = k.second[g.r.below(k.second.size())];
            f.nth = (int)(g.r.chance(1, 2) ? g.r.oneof({1, 1, 2, 3}) : g.r.range(1, span));
            f.count = (int)g.r.oneof({1, 1, 1, 2, 1000});
            g.p.faults.push_back(f);
            if (f.cls == sim::C_WRITE && g.r.chance(1, 2))
            {
                sim::Fault s = f;
                s.err = 0;
                s.shortlen = (int64_t)g.r.below(300);
                s.count = 1;
                g.p.faults.back().nth = f.nth + 1;
                g.p.faults.push_back(s);
            }
        }
        return;
    }
    default:
        sim::CrashSpec s;
        s.op = id;
        s.power = g.r.chance(1, 2);
        s.seed = g.r.next() >> 8;
        s.nth = (int)(g.r.chance(1, 6) ? 1000000 : g.r.chance(1, 2) ? g.r.range(1, span) : g.r.range(1, 5));
        if (g.r.chance(1, 4))
            s.torn = (int64_t)g.r.below(5000);
        g.p.crashes.push_back(s);
    }
}
static Plan gen_c04(uint64_t seed, bool thorough)
{
    Gen g("C04", seed);
    g.p.set("legacy", g.r.chance(1, 5));
    if (g.p.ci("legacy"))
    {
        // the configuration is made at random from the seed: see what it will be
        securefs::DecryptedSecurefsParams want;
        legacy_config(g.p, "x", false, "", &want);
        bool full = want.has_full_format_params();
        g.p.set("full", full);
        g.p.set("block", want.size_params().block_size());
        g.p.set("iv", want.size_params().iv_size());
        g.p.set("pad", want.size_params().max_padding_size());
        g.p.set("longname", want.lite_format_params().long_name_threshold());
        g.p.set("store_time", want.full_format_params().store_time());
        g.p.set("legacy_io", want.full_format_params().legacy_file_table_io());
    }
    else
    {
        g.config(-1);
        g.p.set("plain", (int64_t)0);
        g.p.set("store_time", (int64_t)0);
        g.p.set("legacy_io", (int64_t)0);
        if (g.p.ci("full"))
        {
            g.p.set("ci", g.r.chance(1, 6));
            g.p.set("uni", g.r.chance(1, 6));
        }
        else if (g.r.chance(1, 2))
            g.p.set("longsuffix", g.r.oneof<const char*>({".ll", ".x", "..."}));
    }
    g.p.set("argon_m", g.r.oneof({8, 8, 32}));
    g.p.set("extconfig", !g.p.ci("legacy") && g.r.chance(1, 5));
    g.finish_config();
    g.names.resize(g.r.range(2, 6));
    g.max_size = 3000;
    W w = {{"mkfile", 12}, {"mkdir", 5}, {"rename", 2}, {"unlink", 2}, {"setx", 2}, {"readfile", 1}};
    auto creation = [&](int cred)
    {
        auto& o = g.p.add("create");
        o.a = cred;
        o.b = g.r.chance(1, 3);
    };
    int cred = (int)g.r.below(4);
    creation(cred);
    if (!g.p.ci("legacy") && g.r.chance(3, 4))
        disturb(g, 6);
    g.fill(w, (int)g.r.range(0, 6));
    int rounds = (int)g.r.range(1, thorough ? 6 : 3);
    while (rounds--)
    {
        switch (g.r.below(8))
        {
        case 0:
            {
            auto& o = g.p.add("info");
            o.a = (int)g.r.below(4);
            o.b = g.r.chance(1, 4);
        }
            break;
        case 1:
            creation((int)g.r.below(4));
            break;
        default:
        {
            auto& o = g.p.add("chpass");
            o.a = g.r.chance(1, 10) ? (int)g.r.below(4) : cred;
            o.b = (int)g.r.below(4);
            bool right = o.a == cred;
            int nc = (int)o.b;
            size_t nf = g.p.faults.size(), ncs = g.p.crashes.size();
            disturb(g, 8);
            // what a disturbed change leaves is not known here: go on with a random one
            if (right)
                cred = nf != g.p.faults.size() || ncs != g.p.crashes.size() ? (int)g.r.oneof({cred, nc, nc}) : nc;
        }
        }
        g.fill(w, (int)g.r.range(0, 4));
    }
    return g.p;
}
static Plan gen_c05(uint64_t seed, bool thorough)
{
    Gen g("C05", seed);
    bool full = g.r.chance(1, 40);
    g.config(full);
    g.p.set("plain", (int64_t)0);
    g.p.set("store_time", (int64_t)0);
    g.p.set("legacy_io", (int64_t)0);
    if (!full)
    {
        g.p.set("longname", g.r.oneof({0, 20, 20, 20, 128}));
        if (g.r.chance(2, 3))
            g.p.set("longsuffix", g.r.oneof<const char*>({".ll", ".x", ".l"}));
    }
    g.p.set("argon_m", 8);
    g.p.set("extconfig", g.r.chance(1, 10));
    g.finish_config();
    int thr = full ? 20 : g.v.long_threshold;
    g.names.clear();
    int n = (int)g.r.range(3, 9);
    for (int i = 0; i < n; ++i)
    {
        string s = sim::strf("%c%d", g.r.chance(1, 2) ? 'L' : 's', i);
        size_t len = s[0] == 'L' ? g.r.range(thr ? thr - 1 : 1, thr ? 200 : 140) : 3;
        while (s.size() < len)
            s.push_back((char)('a' + g.r.below(26)));
        g.names.push_back(s);
    }
    g.max_size = 500;
    W w = {{"mkfile", 10}, {"mkdir", 8}, {"rename", 3}, {"unlink", 2}, {"rmdir", 1}, {"link", 2},
           {"symlink", g.r.chance(1, 2) && thr ? 3 : 0}, {"setx", 1}, {"readfile", 1}};
    g.p.add("create").a = 0;
    g.fill(w, (int)g.r.range(2, thorough ? 60 : 25));
    int rounds = (int)g.r.range(1, thorough ? 5 : 3);
    while (rounds--)
    {
        auto& o = g.p.add("migrate");
        o.a = g.r.chance(1, 20) ? 1 : 0;
        o.s = g.r.oneof<const char*>({".ll", ".x", ".l", "...", ".l.l", "_long", ".xx"});
        disturb(g, 40);
        g.fill(w, (int)g.r.range(0, 8));
    }
    return g.p;
}
extern const std::vector<Prop> kCmdProps;
const std::vector<Prop> kCmdProps = {
    {"C04", gen_c04, run_cmds, "creating repositories and changing passwords"},
    {"C05", gen_c05, run_cmds, "migrating long names"},
};
}    // namespace h
